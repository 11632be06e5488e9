INIT Init
NEXT Next
INVARIANTS Sound
CONSTANT Deep = 0
CHECK_DEADLOCK FALSE
