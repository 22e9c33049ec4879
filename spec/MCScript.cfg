SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TextExact BytesExact Local SplitExact EmitAll
