CONSTANTS Bits = 6
MaxW = 7
INIT Init
NEXT Next
INVARIANTS DigitsFit Correct
CHECK_DEADLOCK FALSE
