CONSTANTS Depth = 1
          Mode = "values"
          MaxLen = 0
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
