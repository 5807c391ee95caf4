INIT MCInit
NEXT MCNext
CONSTANTS
  Streams = {1, 2, 3}
  Cap = 1
  Numbers = 3
  Restarts = FALSE
  Stops = FALSE
VIEW View
INVARIANT Gapless Complete AllEnd
PROPERTY EndedOnlyWhenFull Independent
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
