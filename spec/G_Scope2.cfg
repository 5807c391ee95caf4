INIT MCInit
NEXT MCNext
CONSTANTS
  Streams = {1, 2}
  Cap = 2
  Numbers = 4
  Restarts = FALSE
  Stops = FALSE
VIEW View
INVARIANT Gapless Complete AllEnd
PROPERTY EndedOnlyWhenFull Independent
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
