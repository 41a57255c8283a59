SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 NSlots = 2
 Fault = "early"
INVARIANTS Whole Once Clean
CHECK_DEADLOCK FALSE
