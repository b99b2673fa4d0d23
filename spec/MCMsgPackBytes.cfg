CONSTANTS Depth = 0
          Mode = "bytes"
          MaxLen = 1
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
