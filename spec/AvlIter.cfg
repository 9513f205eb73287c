SPECIFICATION Spec
CONSTANTS
  Size = 3
  Enums = {1,2}
  MaxLook = 1
  Emit = FALSE
INVARIANTS Prefix NeverStuck LocksRight
CHECK_DEADLOCK FALSE
