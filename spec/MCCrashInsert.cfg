SPECIFICATION Spec
CONSTANTS
  Parts = {1, 2, 3}
  Existing = {1, 3}
  Target = {1, 2}
  MaxStops = 3
INVARIANT NeverLost
INVARIANT CrashSafe
INVARIANT FailSafe
INVARIANT Untouched
INVARIANT Complete
PROPERTY Ends
