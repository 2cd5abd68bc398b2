SPECIFICATION Spec
INVARIANTS InitiatorAgreement ResponderAgreement Secrecy Completes Emit
CHECK_DEADLOCK FALSE
