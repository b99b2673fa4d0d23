CONSTANTS Depth = 1
          Hops = 2
SPECIFICATION Spec
INVARIANTS StandsForIt SameRefusals
CHECK_DEADLOCK FALSE
