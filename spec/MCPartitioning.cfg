CONSTANTS
NKeys = 2
NVals = 2
MaxLen = 4
DaySpan = 1000
INIT Init
NEXT Next
INVARIANT Inv
