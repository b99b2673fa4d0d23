CONSTANTS MaxRank = 3  MaxDim = 3
SPECIFICATION Spec
INVARIANTS Inverse Accepted Refused MapForm Exact NoWrap
CHECK_DEADLOCK FALSE
