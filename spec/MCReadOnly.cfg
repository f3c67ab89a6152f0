CONSTANTS
Kinds = {"insert", "drop", "update", "addvar", "dropvar", "load", "map"}
Depth0 = 3
ReplayDepth = 2
INIT RoInit
NEXT RoNext
INVARIANT RoInv
