INIT MCInit
NEXT MCNext
CONSTANTS
  Dit = 6
  MarkRuns = {1, 2, 7, 18}
  GapRuns = {1, 2, 6, 18, 42}
  MaxLevel = 5
  Debounces = {2, 3}
VIEW View
CONSTRAINT Bound
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
