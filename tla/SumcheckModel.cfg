SPECIFICATION Spec
INVARIANTS Complete Fits Sound Carries
CHECK_DEADLOCK FALSE
