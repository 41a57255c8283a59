SPECIFICATION Spec
INVARIANT Right
INVARIANT Inside
PROPERTY Ends
CONSTANTS
 M = 2
 L = 6
 Lanes = 4
 Bad = "none"
CHECK_DEADLOCK FALSE
