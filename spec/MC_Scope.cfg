INIT MCInit
NEXT MCNext
CONSTANTS
  Streams = {1, 2, 3}
  Cap = 2
  Numbers = 4
  Restarts = TRUE
  Stops = TRUE
VIEW View
INVARIANT Gapless Complete AllEnd
PROPERTY EndedOnlyWhenFull Independent
