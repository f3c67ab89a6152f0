SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2, 9, 10, 11, 99, 100, 101}
  Years = {1, 4, 100, 400, 999, 1900, 1969, 1970, 2000, 2023, 2024, 9998}
INVARIANT Inv
CHECK_DEADLOCK FALSE
