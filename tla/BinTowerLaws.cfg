INIT Init
NEXT Next
INVARIANTS Laws Java
CHECK_DEADLOCK FALSE
