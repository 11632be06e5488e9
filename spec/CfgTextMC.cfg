INIT Init
NEXT Next
INVARIANTS TokensBack PrintReads SomeRule LexOK PlacesOK
CONSTANT Deep = 0
CHECK_DEADLOCK FALSE
