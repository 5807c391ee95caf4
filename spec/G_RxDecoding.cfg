INIT MCInit
NEXT MCNext
CONSTANTS
 Scenario = "decoding"
 Mode = "decode"
 Pool = 1
 Calls = {"dl1abc", "k3lr"}
 Spotting = 3
 Expiry = 120
 Flush = 5
 Cap = 4
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
INVARIANTS OneEach AtVFO OneOnly Silent
PROPERTIES Bracketed Released Otherwise Following
