SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS LastValid EmitPairs EmitSingle
