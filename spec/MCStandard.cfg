SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DustRule ValueBlind OrderBlind OutsPart Waiting SizeLaw EmitAll
PROPERTIES OnlyWorse
