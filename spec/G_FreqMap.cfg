INIT Init
NEXT MCNext
CONSTANTS
  Rates = {11025, 12000, 48000}
  Sizes = {4, 7, 64, 512}
  Centers = {0, 7020001}
VIEW View
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
