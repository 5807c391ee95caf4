SPECIFICATION TSpec
POSTCONDITION Accepted
VIEW TView
CONSTANTS
 Mode = "decode"
 Pool = 1
 Calls = {"dl1abc", "k3lr", "w1aw", "g4xyz", "pa3fwm", "oh2bh"}
 Spotting = 3
 Expiry = 120
 Flush = 5
 Cap = 1000
CHECK_DEADLOCK FALSE
