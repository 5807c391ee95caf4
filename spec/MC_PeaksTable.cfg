INIT MCInit
NEXT MCNext
CONSTANTS
  Size = 4
  Unit = 60000
  MaxWidth = 2
VIEW View
INVARIANT Consistent
PROPERTY Untaken
PROPERTY ActiveStays
PROPERTY NoRetry
PROPERTY OfferOnlyNew
PROPERTY NewestWins
