CONSTANTS MaxRank = 4  MaxDim = 4
SPECIFICATION Spec
INVARIANTS Inverse Accepted Refused MapForm Exact NoWrap
CHECK_DEADLOCK FALSE
