CONSTANTS Depth = 2
          Hops = 3
SPECIFICATION Spec
INVARIANTS StandsForIt SameRefusals
CHECK_DEADLOCK FALSE
