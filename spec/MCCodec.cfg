SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip RebaseLaw Canonical Detects Foreign EmitAll
