SPECIFICATION Spec
INVARIANT EndsRight
PROPERTY Terminates
CONSTANT Deep = 0
CHECK_DEADLOCK FALSE
