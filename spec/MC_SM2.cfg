SPECIFICATION Spec
INVARIANTS SigLaw NonceLaw SomeNonce EncLaw KxLaw DerLaw Kat
CHECK_DEADLOCK FALSE
