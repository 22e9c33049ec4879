SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Decreds Written Written2 Plain2 EmitAll
