SPECIFICATION Spec
CONSTANTS
  Library = "inplace"
  MaxCalls = 4
INVARIANTS Untouched Repeatable Held
CHECK_DEADLOCK FALSE
