SPECIFICATION Spec
INVARIANTS InitiatorAgreement ResponderAgreement Secrecy Completes
CHECK_DEADLOCK FALSE
