INIT MCInit
NEXT MCNext
CONSTANTS
  MaxRecent = 1
  Times = {0, 61}
  Freqs = {14020400, 14021000}
  MaxLines = 2
VIEW View
CONSTRAINT Bound
INVARIANT Silent
INVARIANT InOrder
INVARIANT OptBound
