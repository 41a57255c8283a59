SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Leaves = 4
 Fault = "nolock"
INVARIANTS All
CHECK_DEADLOCK FALSE
