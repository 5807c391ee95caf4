INIT MCInit
NEXT MCNext
CONSTANT MaxThr = 4
CONSTRAINT Bound
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
