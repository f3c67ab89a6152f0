CONSTANTS
Depth0 = 3
MaxLen = 3
Values = {0, 1, 2}
INIT Init
NEXT Next
INVARIANT Inv
