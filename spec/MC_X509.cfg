SPECIFICATION MCSpec
INVARIANTS RoundTrip Presence Values Strict
CHECK_DEADLOCK FALSE
