---- MODULE MC_Scope ----
EXTENDS Scope, TLC, Json
CONSTANTS Restarts, Stops
MCInit == Init0
Inputs == {[op |-> "show"]} \cup (IF Stops /\ (phase # "off" \/ Restarts) THEN {[op |-> "stop"]} ELSE {}) \cup {[op |-> o, s |-> s] : o \in {"open", "read"}, s \in Streams}
          \cup (IF phase = "off" \/ Restarts THEN {[op |-> "start"]} ELSE {})
MCNext == \E in \in Inputs : Do(in)
\* only the order of the frames matters, not where the counter is
Rel(s) == [st |-> s.st, buf |-> [x \in DOMAIN s.buf |-> (next - s.buf[x]) % Numbers]]
View == <<phase, next, str>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- C22 ----
Gapless == \A s \in Streams : \A x \in 1..(Len(str[s].buf) - 1) : str[s].buf[x + 1] = (str[s].buf[x] + 1) % Numbers
\* while a stream is open nothing is missing at its end
Complete == \A s \in Streams : str[s].st = "open" /\ str[s].buf # <<>> => str[s].buf[Len(str[s].buf)] = (next - 1) % Numbers
EndedOnlyWhenFull == [][\A s \in Streams : str[s].st = "open" /\ str'[s].st = "ended" => act'.in.op = "stop" \/ (act'.in.op = "show" /\ Len(str[s].buf) = Cap)]_vars
Independent == [][act'.in.op = "read" => \A s \in Streams : s # act'.in.s => str'[s] = str[s]]_vars
\* ---- C23 ----
AllEnd == phase # "on" => \A s \in Streams : str[s].st # "open"
====
