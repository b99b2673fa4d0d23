SPECIFICATION Spec
CONSTANTS MaxLen = 5  Bytes = {0, 1, 2, 15, 16, 63, 64, 127, 128, 250, 251, 255}
INVARIANTS TypeOK Encoded RoundTrip Exact
CHECK_DEADLOCK FALSE
