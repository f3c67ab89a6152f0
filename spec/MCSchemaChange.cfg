SPECIFICATION Spec
CONSTANTS
  Parts = {1, 2, 3}
  Op = "add"
  MaxFailures = 1
INVARIANTS Refused Done Known
PROPERTY Ends
