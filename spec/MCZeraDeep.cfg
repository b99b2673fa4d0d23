CONSTANTS Depth = 2
          Mutate = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrips
CHECK_DEADLOCK FALSE
