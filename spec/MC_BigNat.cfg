SPECIFICATION Spec
INVARIANTS Laws Inverses Agree
CHECK_DEADLOCK FALSE
