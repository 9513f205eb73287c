SPECIFICATION Spec
CONSTANTS
  Size = 3
  Enums = {1,2}
  MaxLook = 1
  Emit = TRUE
INVARIANTS Prefix NeverStuck LocksRight Listed
CHECK_DEADLOCK FALSE
