INIT Init
NEXT MCNext
CONSTANT Ops = {"parse", "kiwi", "tci"}
INVARIANT GivenHost
INVARIANT GivenPort
INVARIANT InRange
INVARIANT NoSilentDefault
INVARIANT MissingPort
INVARIANT MissingHost
CHECK_DEADLOCK FALSE
