SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CopyLaws EmitAll Flat
PROPERTY Frozen
