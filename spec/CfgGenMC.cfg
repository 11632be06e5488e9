INIT Init
NEXT Next
INVARIANTS Sound NoViolation TextAgrees BackInOrder
CONSTANT Deep = 0
CHECK_DEADLOCK FALSE
