SPECIFICATION Spec
INVARIANT NotAccepted
CHECK_DEADLOCK FALSE
CONSTANT Traces <- LoadTraces
