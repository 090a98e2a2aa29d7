SPECIFICATION Spec
CONSTANT Threads_ = {t1, t2}
CONSTANT NRows = 3
CONSTANT NTerms = 2
CONSTANT OwnScratch = TRUE
CONSTANT OwnSum = TRUE
CONSTANT Reset = TRUE
INVARIANT RowsRight
INVARIANT AllWritten
INVARIANT OneThreadEach
PROPERTY Ends
CHECK_DEADLOCK FALSE
