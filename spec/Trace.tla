------------------------------- MODULE Trace -------------------------------
(* Code -> specification: replays a recorded session through the state machine of
   Api and judges every event.                                                *)
EXTENDS Api, Json, IOUtils
VARIABLES i, net, heap
Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
Init == i = 0 /\ net = "bitcoin_main" /\ heap = <<>>
Next ==
  /\ i < N
  /\ LET e == Log[i + 1]
         s == Step(net, heap, e)
         c == s.c \cup Always(s.net, e) IN
     /\ \A x \in c : PrintT(<<"FAIL", i + 1, x>>)
     /\ i' = i + 1
     /\ net' = IF e.n # s.net /\ IsNet(e.n) THEN e.n ELSE s.net
     /\ heap' = s.heap
     /\ (i' = N => PrintT(<<"DONE", N>>))
Spec == Init /\ [][Next]_<<i, net, heap>>
Consumed == TLCGet("stats").diameter - 1 = N
=============================================================================
