INIT Init0
NEXT MCNext
VIEW View
INVARIANT Alive
PROPERTY Impossible
PROPERTY Over
PROPERTY Announced
PROPERTY AllAlike
PROPERTY Rarely
PROPERTY NothingBelow
PROPERTY Markers
PROPERTY Silenced
PROPERTY Ends
PROPERTY Linked
CHECK_DEADLOCK FALSE
