INIT PInit
NEXT PNext
