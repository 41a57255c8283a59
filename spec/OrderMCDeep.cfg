SPECIFICATION Spec
CONSTANTS
  Writers = {w1, w2, w3}
  Readers = {r1, r2}
  w1 = w1
  w2 = w2
  w3 = w3
  r1 = r1
  r2 = r2
  Fault = "none"
INVARIANTS Whole NoneLost Known
CHECK_DEADLOCK FALSE
