SPECIFICATION TSpec
POSTCONDITION Accepted
CONSTANT Cumulation = 100
CHECK_DEADLOCK FALSE
