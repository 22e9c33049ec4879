SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Decodes Commits Writes Missing Elsewhere Apart EmitAll
