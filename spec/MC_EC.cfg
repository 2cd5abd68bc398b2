SPECIFICATION Spec
INVARIANTS Group Agree
CHECK_DEADLOCK FALSE
