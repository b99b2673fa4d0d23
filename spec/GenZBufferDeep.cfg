CONSTANTS Slots = 3  MaxOps = 7
SPECIFICATION Spec
INVARIANT OnceEach
CHECK_DEADLOCK FALSE
