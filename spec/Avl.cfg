SPECIFICATION Spec
CONSTANTS
  Keys = {0,1,2,3,4,5,6}
  Vals = {"0","1"}
  Mod = "2"
INVARIANTS Refines Balance1 NoZero
CHECK_DEADLOCK FALSE
