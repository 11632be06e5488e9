INIT CInit
NEXT CNext
CONSTANT Deep = 0
CHECK_DEADLOCK FALSE
