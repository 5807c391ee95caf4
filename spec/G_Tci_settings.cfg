INIT MCInit
NEXT MCNext
CONSTANTS
 Mode = "strain"
 Pool = 30
 Calls = {"k3lr", "w1aw"}
 Spotting = 3
 Expiry = 120
 Flush = 5
 Cap = 1000
 Grid = 61
 Scenario = "settings"
VIEW MCView
INVARIANT Mirrored Hidden Applied Clean
PROPERTY Foreign
CHECK_DEADLOCK FALSE
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
