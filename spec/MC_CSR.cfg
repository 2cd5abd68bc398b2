SPECIFICATION MCSpec
INVARIANTS Placed Asked RoundTrip Readable Strict
CHECK_DEADLOCK FALSE
