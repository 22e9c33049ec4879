SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Joined Each Order Decides EmitAll
