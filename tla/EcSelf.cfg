INIT Init
NEXT Next
INVARIANTS Laws Agree Reps
CONSTANT Curves <- AllCurves
