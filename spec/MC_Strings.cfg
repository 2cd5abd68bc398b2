SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT UTF8Agrees
INVARIANT PlainAgrees
INVARIANT OrderAgrees
CHECK_DEADLOCK FALSE
