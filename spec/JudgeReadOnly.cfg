INIT RoInit
NEXT RoNext
INVARIANT Inv
