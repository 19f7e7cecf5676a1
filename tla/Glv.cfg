CONSTANTS R = 12097
Lambda = 190
INIT Init
NEXT Next
INVARIANTS Recombines Short Correct
CHECK_DEADLOCK FALSE
