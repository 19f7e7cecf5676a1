INIT Init
NEXT Next
INVARIANTS Once Accounted OneReceiver
CHECK_DEADLOCK FALSE
