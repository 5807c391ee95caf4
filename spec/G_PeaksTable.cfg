INIT MCInit
NEXT MCNext
CONSTANTS
  Size = 3
  Unit = 60000
  MaxWidth = 2
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
