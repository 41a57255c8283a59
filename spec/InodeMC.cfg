SPECIFICATION Spec
CONSTANTS W = 5 Top = 8 Mistake = "none"
INVARIANT Routing Shape
CHECK_DEADLOCK FALSE
