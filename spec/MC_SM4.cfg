SPECIFICATION Spec
INVARIANTS InverseLaw Modes Accelerated
CHECK_DEADLOCK FALSE
