SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Format ReadsBack Keeps TooBig EmitAll
