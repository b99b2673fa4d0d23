CONSTANTS Depth = 0
          Mode = "bytes"
          MaxLen = 4
SPECIFICATION Spec
INVARIANTS RoundTrips BlobsBack Agree Shape
CHECK_DEADLOCK FALSE
