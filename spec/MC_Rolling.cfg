INIT MCInit
NEXT MCNext
CONSTANTS
  Sizes = {1, 2, 3}
  Values <- MCValues
  Specials <- MCSpecials
  Depth = 3
VIEW FView
INVARIANT WindowIsHistory
PROPERTY Recovers
PROPERTY Ordered
