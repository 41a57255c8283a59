SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Leaves = 6
 Fault = "none"
INVARIANTS Back All OneMark Quiet ReadyAtPublish
CHECK_DEADLOCK FALSE
