INIT MCInit
NEXT MCNext
CONSTANTS
  Mode = "split"
  MaxLevel = 6
VIEW View
CONSTRAINT Bound
CONSTRAINT EmitInit
INVARIANT Sane
PROPERTY ClosedForever GetsTheSet PendingOut
ACTION_CONSTRAINT Emit
