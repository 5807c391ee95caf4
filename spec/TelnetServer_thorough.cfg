SPECIFICATION Spec
CONSTANTS
  C = {1, 2}
  MaxSpots = 6
  WithTimeout = TRUE
INVARIANT Gapless
PROPERTY SpotReturns
PROPERTY StopReturns
PROPERTY Complete
