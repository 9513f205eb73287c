SPECIFICATION Spec
CONSTANTS
  Keys = {}
  Vals = {}
  Mod = "2"
CHECK_DEADLOCK FALSE
