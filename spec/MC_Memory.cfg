SPECIFICATION Spec
CONSTANTS
  Library = "fresh"
  MaxCalls = 4
INVARIANTS Untouched Repeatable Held
CHECK_DEADLOCK FALSE
