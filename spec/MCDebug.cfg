INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT MaxLen = 1
INVARIANT Unambiguous
