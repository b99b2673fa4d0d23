CONSTANTS Depth = 2
          Mode = "values"
          MaxLen = 0
SPECIFICATION Spec
INVARIANTS RoundTrips BlobsBack Agree Shape
CHECK_DEADLOCK FALSE
