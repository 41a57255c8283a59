SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3, 4}
 NSlots = 4
 Fault = "none"
INVARIANTS Whole Once Clean
CHECK_DEADLOCK FALSE
