SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Width0 Exact PrefixFree Wider EmitAll
