SPECIFICATION Spec
INVARIANT Right
INVARIANT Inside
CONSTANTS
 M = 2
 L = 4
 Lanes = 2
 Bad = "over"
CHECK_DEADLOCK FALSE
