SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 NSlots = 2
 Fault = "push"
INVARIANTS Whole Once Clean
CHECK_DEADLOCK FALSE
