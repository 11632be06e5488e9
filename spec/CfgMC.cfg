INIT Init
NEXT Next
INVARIANT Sound
CONSTANT Deep = 0
CHECK_DEADLOCK FALSE
