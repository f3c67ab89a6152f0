SPECIFICATION Spec
CONSTANT
Names = {"a", "b"}
MaxOps = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
