SPECIFICATION Spec
CONSTANT Repoint = TRUE
CONSTANT Keep = FALSE
CONSTANT Refresh = TRUE
CONSTANT Restore = TRUE
CONSTANT Forget = TRUE
CONSTANT None = None
CONSTANT Blocks = {b1, b2, b3, b4}
SYMMETRY Interchange
INVARIANT RunsRight
CHECK_DEADLOCK FALSE
