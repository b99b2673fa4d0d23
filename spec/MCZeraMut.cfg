CONSTANTS Depth = 0
          Mutate = TRUE
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
