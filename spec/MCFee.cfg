SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Order EmitAll
PROPERTIES Conserves
