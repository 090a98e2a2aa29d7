SPECIFICATION Spec
CONSTANT Threads_ = {t1, t2}
CONSTANT NRows = 3
CONSTANT NTerms = 2
CONSTANT OwnScratch = TRUE
CONSTANT OwnSum = FALSE
CONSTANT Reset = TRUE
INVARIANT RowsRight
INVARIANT AllWritten
INVARIANT OneThreadEach
CHECK_DEADLOCK FALSE
