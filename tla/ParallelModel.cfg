CONSTANTS MaxN = 6
 W = 3
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
