INIT Init
NEXT Next
INVARIANT SoundAndComplete
INVARIANT Listed
CONSTANT Mixed = TRUE
CONSTANT Emit = FALSE
CHECK_DEADLOCK FALSE
