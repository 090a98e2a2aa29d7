SPECIFICATION Spec
CONSTANT Depth = 3
VIEW View
INVARIANT WellFormed
INVARIANT OnlyKinShare
PROPERTY OthersStay
PROPERTY ShapesStay
PROPERTY DeepEqual
CHECK_DEADLOCK FALSE
