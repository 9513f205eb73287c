INIT Init
NEXT Next
INVARIANT SoundAndComplete
INVARIANT Listed
CONSTANT Mixed = TRUE
CONSTANT Emit = TRUE
CHECK_DEADLOCK FALSE
