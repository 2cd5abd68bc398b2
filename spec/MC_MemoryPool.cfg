SPECIFICATION Spec
CONSTANTS
  Library = "pool"
  MaxCalls = 4
INVARIANTS Untouched Held
CHECK_DEADLOCK FALSE
