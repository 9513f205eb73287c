SPECIFICATION Spec
CONSTANTS
  Size = 7
  Enums = {1,2,3,4,5}
  MaxLook = 4
  Emit = TRUE
INVARIANTS Prefix NeverStuck LocksRight Listed
CHECK_DEADLOCK FALSE
