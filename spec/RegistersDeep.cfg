SPECIFICATION Spec
CONSTANT Repoint = TRUE
CONSTANT Keep = TRUE
CONSTANT Refresh = TRUE
CONSTANT Restore = TRUE
CONSTANT Forget = TRUE
CONSTANT None = None
CONSTANT Blocks = {b1, b2, b3, b4, b5, b6}
SYMMETRY Interchange
INVARIANT RunsRight
INVARIANT NothingLeft
INVARIANT Separate
INVARIANT PointsAtLife
CHECK_DEADLOCK FALSE
