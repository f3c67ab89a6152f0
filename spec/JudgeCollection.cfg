INIT Init
NEXT Next
INVARIANT Inv
