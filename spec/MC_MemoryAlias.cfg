SPECIFICATION Spec
CONSTANTS
  Library = "alias"
  MaxCalls = 4
INVARIANTS Untouched Repeatable Held
CHECK_DEADLOCK FALSE
