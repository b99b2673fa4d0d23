CONSTANTS Depth = 1
          Mutate = TRUE
SPECIFICATION Spec
INVARIANTS RoundTrips Defined
CHECK_DEADLOCK FALSE
