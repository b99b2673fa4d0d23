CONSTANTS Depth = 0
          Mode = "mutants"
          MaxLen = 0
SPECIFICATION Spec
INVARIANTS RoundTrips BlobsBack Agree Shape
CHECK_DEADLOCK FALSE
