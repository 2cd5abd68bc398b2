SPECIFICATION Spec
INVARIANTS Small Large
CHECK_DEADLOCK FALSE
