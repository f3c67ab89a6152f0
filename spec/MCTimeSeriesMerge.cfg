CONSTANTS
N = 4
MaxLen = 3
MaxTol = 2
INIT Init
NEXT Next
INVARIANT Inv
