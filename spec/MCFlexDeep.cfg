CONSTANTS Depth = 2
          Mode = "values"
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
