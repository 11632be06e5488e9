INIT Init
NEXT Next
INVARIANT Conforms
ALIAS Alias
CONSTANT Deep = 1
CHECK_DEADLOCK FALSE
