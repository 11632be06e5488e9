INIT Init
NEXT Next
INVARIANT Conforms
ALIAS Alias
CONSTANT Deep = 0
CHECK_DEADLOCK FALSE
