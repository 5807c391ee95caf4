INIT Init
NEXT MCNext
CONSTANTS
  Len1 = {1, 2, 4, 5}
  Vals1 = {0, 1, 2, 3}
  Thr1 = {0, 1, 2}
  NoiseVals = {1}
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
PROPERTY Complete
PROPERTY Separated
PROPERTY SignalInside
PROPERTY NearBin
PROPERTY Quietest
