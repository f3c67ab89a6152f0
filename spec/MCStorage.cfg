SPECIFICATION Spec
CONSTANT
N = 3
Values = {"a", "b", "nan"}
MaxOps = 2
Stale = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
