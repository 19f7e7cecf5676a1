INIT Init
NEXT Next
INVARIANTS Agree Laws
CHECK_DEADLOCK FALSE
