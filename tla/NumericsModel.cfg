INIT Init
NEXT Next
INVARIANTS Adds Subs Muls Lshs Divs Casts Bits
CHECK_DEADLOCK FALSE
