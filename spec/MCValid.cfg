SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Start ParserAgrees ReadsBack ShownValid EmitAll
