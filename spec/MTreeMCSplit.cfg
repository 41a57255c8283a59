SPECIFICATION Spec
CONSTANTS
  W = 2
  IW = 2
  HopLimit = 3
  Scenes <- SceneSplit
  Fault = ""
INVARIANTS NoWrong Finding Clean2
PROPERTY AllLegal
