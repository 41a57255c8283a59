SPECIFICATION Spec
CONSTANTS W = 6
 Top = 4
 Group = 3
 Above = "stop"
INVARIANTS Found Separated Nothing_lost
CHECK_DEADLOCK FALSE
