SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Apart Diamond EmitAll
