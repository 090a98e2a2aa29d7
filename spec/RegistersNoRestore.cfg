SPECIFICATION Spec
CONSTANT Repoint = TRUE
CONSTANT Keep = TRUE
CONSTANT Refresh = TRUE
CONSTANT Restore = FALSE
CONSTANT Forget = TRUE
CONSTANT None = None
CONSTANT Blocks = {b1, b2, b3, b4}
SYMMETRY Interchange
INVARIANT RunsRight
CHECK_DEADLOCK FALSE
