SPECIFICATION Spec
CONSTANTS
 Callers = {1, 2}
 Free = {1}
 Ops = {"start", "stop", "center", "get", "iq"}
 Centers = {0, 1}
 Cap = 1
 Guarded = TRUE
INVARIANT OneLoop
PROPERTY Returns Refines
