CONSTANTS Slots = 3  MaxOps = 5
SPECIFICATION Spec
INVARIANT OnceEach
CHECK_DEADLOCK FALSE
