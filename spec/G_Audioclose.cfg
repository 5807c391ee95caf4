INIT MCInit
NEXT MCNext
CONSTANTS
  Mode = "close"
  MaxLevel = 5
VIEW View
CONSTRAINT Bound
CONSTRAINT EmitInit
INVARIANT Sane
PROPERTY ClosedForever GetsTheSet PendingOut
ACTION_CONSTRAINT Emit
