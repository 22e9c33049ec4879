SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Unreadable NoPrefix NoExtension Exact IdSplit DecredSplit EmitAll
