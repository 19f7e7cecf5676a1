CONSTANTS Bits = 4
MaxW = 5
INIT Init
NEXT Next
INVARIANTS DigitsFit Correct
CHECK_DEADLOCK FALSE
