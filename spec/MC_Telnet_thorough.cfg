INIT MCInit
NEXT MCNext
CONSTANTS
  MaxRecent = 1
  Times = {0, 60, 61, 122}
  Freqs = {14020400, 14021000}
  MaxLines = 3
VIEW View
CONSTRAINT Bound
INVARIANT Silent
INVARIANT InOrder
INVARIANT OptBound
