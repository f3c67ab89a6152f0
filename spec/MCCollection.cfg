CONSTANTS
Kinds = {"insert", "drop", "update", "addvar", "dropvar"}
Depth0 = 3
ReplayDepth = 2
INIT Init
NEXT Next
INVARIANT Inv
