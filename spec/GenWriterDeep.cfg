CONSTANT MaxCalls = 9
SPECIFICATION Spec
INVARIANTS NothingLost NeverDoomed
CHECK_DEADLOCK FALSE
