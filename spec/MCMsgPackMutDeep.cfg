CONSTANTS Depth = 1
          Mode = "mutants"
          MaxLen = 0
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
