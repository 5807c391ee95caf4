INIT MCInit
NEXT MCNext
CONSTANTS
  Dit = 6
  MarkRuns = {1, 2, 6, 18, 40}
  GapRuns = {1, 2, 6, 18, 42, 130}
  MaxLevel = 8
  Debounces = {}
VIEW View
CONSTRAINT Bound
INVARIANT Sane NoDoubt
PROPERTY OnlyKnown InOrder NothingLost ResetForgets
