INIT MCInit
NEXT MCNext
CONSTANTS
 Msgs = 10
 Period = 5
VIEW View
PROPERTY InOrder NothingAfter OpenReturns
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
