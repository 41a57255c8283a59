SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Leaves = 4
 Fault = "late"
INVARIANTS Back
CHECK_DEADLOCK FALSE
