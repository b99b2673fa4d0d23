SPECIFICATION Spec
CONSTANTS MaxLen = 4  Bytes = {0, 1, 63, 64, 127, 128, 250, 255}
INVARIANTS TypeOK Encoded RoundTrip Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
