SPECIFICATION Spec
CONSTANT
Values = {0, 1, 3}
MaxLen = 2
Shared = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
