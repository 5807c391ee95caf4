INIT TInit
NEXT TNext
CONSTANTS
  PresetDit = 6
  Speeds <- QuickSpeeds
  Shared = 16
  Grain = 64
VIEW View
INVARIANT Understood
