CONSTANTS
Kinds = {"insert", "drop", "vupdate", "vadd", "vdrop", "vsync"}
Depth0 = 4
ReplayDepth = 2
INIT Init
NEXT Next
INVARIANT Inv
