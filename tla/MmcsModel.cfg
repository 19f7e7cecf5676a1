INIT Init
NEXT Next
CONSTANT Shapes <- ShapesQ
INVARIANTS Complete Binding
