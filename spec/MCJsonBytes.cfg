CONSTANTS Depth = 0
          Mode = "bytes"
          MaxLen = 3
SPECIFICATION Spec
INVARIANTS RoundTrips BlobsBack Agree Shape
CHECK_DEADLOCK FALSE
