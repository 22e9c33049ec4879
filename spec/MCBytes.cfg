SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Finding Slicing EmitAll
PROPERTIES OnlyGrows Apart
