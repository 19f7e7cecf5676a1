INIT Init
NEXT Next
INVARIANT Inv
CONSTANT Primes = {7, 11, 13, 17, 41, 43, 73, 97, 113, 193}
