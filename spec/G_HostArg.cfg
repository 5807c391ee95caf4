INIT Init
NEXT MCNext
CONSTANT Ops = {"parse", "kiwi"}
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
