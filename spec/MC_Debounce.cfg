INIT MCInit
NEXT MCNext
CONSTANT MaxThr = 4
CONSTRAINT Bound
INVARIANT Follows
INVARIANT Raw
PROPERTY HeldOrKept
PROPERTY NoGlitch
