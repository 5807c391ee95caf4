INIT MCInit
NEXT MCNext
CONSTANTS
  Chunks <- ScanChunks
  Datas <- ScanDatas
  MaxWord = 5
  MaxCount = 0
  MaxQueue = 0
  Restarts = TRUE
  NamesOnly = TRUE
VIEW View
CONSTRAINT Bound
CONSTRAINT EmitInit
ACTION_CONSTRAINT Emit
