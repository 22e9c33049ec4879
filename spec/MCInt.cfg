SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Unsigned Narrow Signed Offset ScriptNums FlipTwice EmitAll
