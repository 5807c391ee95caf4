INIT MCInit
NEXT MCNext
CONSTANTS
  Chunks <- SpotChunks
  Datas <- SpotDatas
  MaxWord = 5
  MaxCount = 7
  MaxQueue = 0
  Restarts = TRUE
  NamesOnly = FALSE
VIEW View
CONSTRAINT Bound
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
