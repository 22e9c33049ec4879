-------------------------------- MODULE Emit --------------------------------
(* Specification -> code: a model prints sessions (sequences of actions) which the
   recorder executes on the library and Trace.tla judges.                       *)
EXTENDS Json, IOUtils, TLC, Sequences, Naturals
Act(op, a) == <<op, a>>
Use(n) == Act("select", [name |-> n])
Reset == Act("reset", [x |-> 0])
Session(acts) == PrintT("CASE " \o ToJson([acts |-> acts]))
EnvOr(name, dflt) == IF name \in DOMAIN IOEnv THEN IOEnv[name] ELSE dflt
Deep == EnvOr("VERIF_TIER", "quick") # "quick"
=============================================================================
