INIT Init
NEXT Next
INVARIANTS Usable Complete Untouched Known Suffix Swap
CHECK_DEADLOCK FALSE
