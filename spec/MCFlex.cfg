CONSTANTS Depth = 1
          Mode = "values"
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
