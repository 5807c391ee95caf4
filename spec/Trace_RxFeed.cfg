SPECIFICATION TSpec
POSTCONDITION Accepted
CONSTANT Room = 100
CHECK_DEADLOCK FALSE
