SPECIFICATION Spec
CONSTANTS
  Writers = {w1, w2}
  Readers = {r1, r2}
  w1 = w1
  w2 = w2
  r1 = r1
  r2 = r2
  Fault = "none"
INVARIANTS Whole NoneLost Known
CHECK_DEADLOCK FALSE
