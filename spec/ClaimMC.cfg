SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 NSlots = 3
 Fault = "none"
INVARIANTS Whole Once Clean
CHECK_DEADLOCK FALSE
