SPECIFICATION Spec
CONSTANTS
  Nobody = 99
  Wide = 2
  Writers = {1,2}
  Readers = {11}
  Rounds = 2
  Tries = 2
  NV = 9
  NS = 8
  Fault = "changed"
INVARIANTS Exclusive Undisturbed Means Answers
CHECK_DEADLOCK FALSE
