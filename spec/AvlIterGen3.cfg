SPECIFICATION Spec
CONSTANTS
  Size = 1
  Enums = {1,2,3}
  MaxLook = 0
  Emit = TRUE
INVARIANTS Prefix NeverStuck LocksRight Listed
CHECK_DEADLOCK FALSE
