INIT Init
NEXT Next
INVARIANTS Agree Bijective
CHECK_DEADLOCK FALSE
