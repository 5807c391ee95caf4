INIT MCInit
NEXT MCNext
CONSTANTS
  Mode = "split"
  MaxLevel = 6
VIEW View
CONSTRAINT Bound
INVARIANT Sane SplitFree
PROPERTY ClosedForever GetsTheSet PendingOut
