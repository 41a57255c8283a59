SPECIFICATION FairSpec
CONSTANTS
  W = 2
  IW = 2
  HopLimit = 3
  Scenes <- SceneBase
  Fault = ""
INVARIANTS NoWrong Finding Clean2
PROPERTIES AllLegal Terminates
