CONSTANTS Depth = 1
          Mode = "mutants"
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
