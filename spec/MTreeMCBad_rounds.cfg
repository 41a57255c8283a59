SPECIFICATION Spec
CONSTANTS
  W = 2
  IW = 2
  HopLimit = 1
  Scenes <- SceneSplit
  Fault = "rounds"
INVARIANTS NoWrong Finding Clean2
PROPERTY AllLegal
