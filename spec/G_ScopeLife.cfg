INIT MCInit
NEXT MCNext
CONSTANT Viewers = {1, 2}
VIEW View
INVARIANT AllEnd Exclusive
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
