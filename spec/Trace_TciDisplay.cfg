SPECIFICATION TSpec
POSTCONDITION Accepted
CONSTANTS
 Listeners = {1, 2, 3, 4, 5, 6, 7, 8}
 Callsigns = {1, 2, 3, 4, 5, 6}
CHECK_DEADLOCK FALSE
