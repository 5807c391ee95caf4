---- MODULE MC_KiwiConn ----
EXTENDS KiwiConn, TLC, Json
MCInit == Init0
Inputs == {[op |-> "dial", kind |-> k] : k \in {"ok", "refused", "rejected"}}
          \cup {[op |-> o] : o \in {"returned", "take", "tick", "say", "busy", "badp", "down", "hangup", "closeframe", "garbage", "readbreak", "writebreak", "closed"}}
          \cup {[op |-> "close", count |-> c] : c \in {1, 3}}
\* The server keeps the client waiting at three points of the opening, and asks whether Open has
\* returned only when the answer is settled: this leaves the test few states it cannot tell apart.
Asked(in) == /\ (in.op = "tick" => /\ n \in {0, 4, Msgs}
                                   /\ (n < Msgs /\ due = 1 => time < Period - 1))
             /\ (in.op = "returned" => ph = "down" \/ n = Msgs)
             /\ (in.op = "say" /\ ph = "up" => time = 0)
MCNext == \E in \in Inputs : Asked(in) /\ Do(in)
View == <<ph, n, ret, time, due, told, wbroken>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- C24 ----
InOrder == [][n' # n /\ ph' = "up" => act'.out = n + 1]_vars
NothingAfter == [][act'.in.op = "say" /\ ph = "down" => act'.out = "lost"]_vars
OpenReturns == [][act'.in.op = "returned" /\ ph = "down" => act'.out]_vars
====
