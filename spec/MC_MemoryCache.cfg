SPECIFICATION Spec
CONSTANTS
  Library = "cache"
  MaxCalls = 4
INVARIANTS Untouched Repeatable Held
CHECK_DEADLOCK FALSE
