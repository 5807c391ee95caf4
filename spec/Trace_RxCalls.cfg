SPECIFICATION TSpec
POSTCONDITION Accepted
CONSTANTS
 Callers = {1, 2, 3, 4, 5}
 Free = {1}
 Ops = {"start"}
 Centers = {0}
CHECK_DEADLOCK FALSE
