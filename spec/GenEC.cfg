SPECIFICATION Spec
INVARIANTS Homomorphic Emit
CHECK_DEADLOCK FALSE
