CONSTANTS Depth = 0
          Mode = "mutants"
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
