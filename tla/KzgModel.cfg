INIT Init
NEXT Next
INVARIANT Complete
INVARIANT GwSound
INVARIANT ShSound
INVARIANT ShClash
