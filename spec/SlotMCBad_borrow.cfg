SPECIFICATION Spec
CONSTANTS Vals = {1, 2, 3}
 NSlots = 2
 MaxOut = 2
 MaxRaw = 2
 Fault = "borrow"
INVARIANTS Exact NeverBack
CHECK_DEADLOCK FALSE
