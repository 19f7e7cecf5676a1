SPECIFICATION Spec
CONSTANTS Vals = {1, 2}
 MaxLen = 5
 InitCap = 3
INVARIANTS Refines RawOutside
CHECK_DEADLOCK FALSE
