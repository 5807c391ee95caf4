SPECIFICATION Spec
CONSTANTS
 Showers = {1, 2}
 Openers = {1, 2, 3}
 Stoppers = {1, 2}
INVARIANT NoLateStream
PROPERTY ShowReturns OpenReturns StreamsEnd StopEnds
