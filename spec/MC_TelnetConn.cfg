INIT Init
NEXT MCNext
CONSTANTS
  MaxPart = 1
  MaxPend = 2
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
INVARIANT NothingBehind
INVARIANT SplitFree
PROPERTY ClosedForGood
PROPERTY KeptWhileUp
