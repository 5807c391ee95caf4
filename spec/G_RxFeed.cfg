INIT Init0
NEXT MCNext
CONSTANT Room = 100
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
INVARIANTS Bounded NoneLeft Idle
PROPERTIES Ordered
