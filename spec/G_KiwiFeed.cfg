INIT MCInit
NEXT MCNext
CONSTANTS
 Cumulation = 100
VIEW View
PROPERTY Whole
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
