SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip CutShort InjectiveLaw WholeLen EmitAll
