SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip AnyCase OneWrong Below Foreign EmitAll
