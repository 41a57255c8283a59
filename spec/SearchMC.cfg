SPECIFICATION Spec
INVARIANT Right
INVARIANT Inside
PROPERTY Ends
CONSTANTS
 M = 2
 L = 5
 Lanes = 2
 Bad = "none"
CHECK_DEADLOCK FALSE
