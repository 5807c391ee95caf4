INIT MCInit
NEXT MCNext
CONSTANTS
  Mode = "settings"
  MaxLevel = 5
VIEW View
CONSTRAINT Bound
CONSTRAINT EmitInit
INVARIANT Sane
PROPERTY ClosedForever GetsTheSet PendingOut
ACTION_CONSTRAINT Emit
