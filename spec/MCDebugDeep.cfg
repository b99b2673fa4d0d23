INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxLen = 2
INVARIANT Unambiguous
