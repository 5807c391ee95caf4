INIT MCInit
NEXT MCNext
CONSTANTS
 Listeners = {1, 2}
 Callsigns = {1}
 Most = 2
 Ends = FALSE
VIEW View0
INVARIANT Active
PROPERTY Marked Off Forwarded Ended
CHECK_DEADLOCK FALSE
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
