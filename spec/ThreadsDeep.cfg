SPECIFICATION Spec
CONSTANT Threads_ = {t1, t2, t3, t4}
CONSTANT NRows = 5
CONSTANT NTerms = 3
CONSTANT OwnScratch = TRUE
CONSTANT OwnSum = TRUE
CONSTANT Reset = TRUE
SYMMETRY Alike
INVARIANT RowsRight
INVARIANT AllWritten
INVARIANT OneThreadEach
CHECK_DEADLOCK FALSE
