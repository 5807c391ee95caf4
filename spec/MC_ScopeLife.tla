---- MODULE MC_ScopeLife ----
EXTENDS ScopeLife, TLC, Json
MCInit == Init0
Inputs == {[op |-> o] : o \in {"start", "stop", "active", "show", "occupy", "release", "flip", "bounce", "storm"}}
          \cup {[op |-> o, s |-> s] : o \in {"watch", "look"}, s \in Viewers}
MCNext == \E in \in Inputs : Do(in)
View == <<on, taken, view>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- C23 ----
AllEnd == ~on => \A s \in Viewers : view[s] # "live"
Exclusive == ~(on /\ taken)
====
