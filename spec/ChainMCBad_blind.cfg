SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Leaves = 4
 Fault = "blind"
INVARIANTS All
CHECK_DEADLOCK FALSE
