INIT Init
NEXT MCNext
CONSTANTS
  Rates = {8000, 11025, 12000, 44100, 48000, 192000}
  Sizes = {4, 7, 64, 100, 512, 600}
  Centers = {0, 7020000, 1296200000}
VIEW View
INVARIANT RoundTrip
INVARIANT Middle
INVARIANT Spacing
INVARIANT Monotone
INVARIANT Clamped
INVARIANT Nearest
