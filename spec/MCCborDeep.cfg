CONSTANTS Depth = 2
          Mode = "values"
          MaxLen = 0
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
