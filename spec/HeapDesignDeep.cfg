SPECIFICATION Spec
CONSTANT Depth = 4
VIEW View
INVARIANT WellFormed
INVARIANT OnlyKinShare
PROPERTY OthersStay
PROPERTY ShapesStay
PROPERTY DeepEqual
CHECK_DEADLOCK FALSE
