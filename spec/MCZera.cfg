CONSTANTS Depth = 1
          Mutate = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrips
CHECK_DEADLOCK FALSE
