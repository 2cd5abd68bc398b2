SPECIFICATION Spec
INVARIANTS PadOk Agree
CHECK_DEADLOCK FALSE
