SPECIFICATION Spec
INVARIANTS ElementUnique HeadAgrees IntUnique OIDUnique OIDBack TimeBack KindsOrdered
CHECK_DEADLOCK FALSE
