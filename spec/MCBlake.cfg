SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS OneShot Buffered Settled CompressLaw SaltLaw EmitAll
