INIT Init
NEXT Next
INVARIANTS Bytes Vectors
CHECK_DEADLOCK FALSE
