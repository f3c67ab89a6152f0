SPECIFICATION Spec
CONSTANTS
  Writers = {"a", "b", "c"}
  Parts = {1, 2}
  MaxFaults = 1
  MaxDeaths = 1
  Waits = TRUE
INVARIANTS OnlyHolder Exclusive Released NoLostUpdate
PROPERTY Ends
