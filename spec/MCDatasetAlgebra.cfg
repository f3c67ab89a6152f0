SPECIFICATION Spec
CONSTANT
MaxX = 3
MaxY = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
