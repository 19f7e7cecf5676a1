CONSTANT Depth = 6
INIT Init
NEXT Next
INVARIANTS Right Closes
CHECK_DEADLOCK FALSE
