INIT MCInit
NEXT GNext
CONSTANTS
  Sizes = {1, 3}
  Values <- GValues
  Specials <- MCSpecials
  Depth = 3
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
