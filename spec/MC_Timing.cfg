INIT TInit
NEXT TNext
CONSTANTS
  PresetDit = 6
  Speeds = {4, 5, 6, 7, 8}
  Shared = 1
VIEW View
INVARIANT Understood
