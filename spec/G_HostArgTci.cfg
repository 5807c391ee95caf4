INIT Init
NEXT MCNext
CONSTANT Ops = {"tci"}
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
