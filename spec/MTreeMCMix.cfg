SPECIFICATION Spec
CONSTANTS
  W = 3
  IW = 2
  HopLimit = 3
  Scenes <- SceneMix
  Fault = ""
INVARIANTS NoWrong Finding Clean2
PROPERTY AllLegal
