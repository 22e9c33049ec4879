SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Faithful Keyed Splits EmitAll
