CONSTANT MaxCalls = 6
SPECIFICATION Spec
INVARIANTS NothingLost NeverDoomed
CHECK_DEADLOCK FALSE
