INIT MCInit
NEXT MCNext
CONSTANTS
  Chunks <- HoldChunks
  Datas <- HoldDatas
  MaxWord = 5
  MaxCount = 4
  MaxQueue = 3
  Restarts = TRUE
  NamesOnly = FALSE
VIEW View
CONSTRAINT Bound
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
