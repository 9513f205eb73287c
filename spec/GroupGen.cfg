SPECIFICATION Spec
CONSTANTS
  Regs = {1, 2, 3}
  Scalars <- ScalarSet
  Q = 11
  Len1 <- Bound
  HasNeg = TRUE
INVARIANTS InGroup Listed
CHECK_DEADLOCK FALSE
