---- MODULE MC_TciDisplay ----
EXTENDS TciDisplay, TLC, Json
CONSTANTS Most,   \* reports in a row
          Ends    \* the process is closed, too
R(k, x, f) == [k |-> k, x |-> x, f |-> f]
Reports == {R("on", x, 1) : x \in Listeners} \cup {R("on", 1, 2)} \cup {R("off", x, 0) : x \in Listeners}
           \cup {R("spot", x, 1) : x \in Callsigns} \cup {R("spot", 1, 2)} \cup {R("gone", x, 0) : x \in Callsigns} \cup {R("dec", 1, 1)}
Rows(n) == UNION {[1..k -> Reports] : k \in 0..n}
Inputs == {[op |-> o] : o \in {"connect", "stick"}} \cup {[op |-> "show", l |-> l, s |-> s] : l, s \in BOOLEAN}
          \cup {[op |-> "report", r |-> r] : r \in Rows(Most) \ {<<>>}}
          \cup {[op |-> o, r |-> r] : o \in {"hangup", "close"}, r \in Rows(1)}
\* what is shown is set at the begin, and changed once in a while
Asked(in) == /\ in.op = "close" => Ends
             /\ in.op = "show" => ~over /\ ~stuck /\ show # [l |-> in.l, s |-> in.s]
             /\ in.op = "report" => Len(in.r) < 2 \/ (up /\ ~stuck /\ ms = None(Callsigns) /\ show.l /\ show.s)
MCInit == Init0
MCNext == \E in \in Inputs : Asked(in) /\ Do(in)
View0 == <<up, stuck, over, show, on, ml, ms>>
Emit == PrintT("EDGE " \o ToJson([s |-> View0, i |-> act'.in, o |-> act'.out, t |-> View0']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View0))
\* ---- C26 ----
\* no markers of listeners that are not active
Active == \A x \in Listeners : ml[x] \in {0, on[x]}
\* while the display is switched on, every listener gets its marker
Marked == [][act'.in.op = "report" /\ up /\ ~stuck /\ show.l => \A x \in Listeners : ml[x] = on[x] => ml'[x] = on'[x]]_vars
\* no new markers while it is switched off
New(m, n) == \E x \in DOMAIN m : n[x] # 0 /\ n[x] # m[x]
Off == [][(~show.l => ~New(ml, ml')) /\ (~show.s => ~New(ms, ms'))]_vars
\* the spotter gets what was spotted, in order, whatever the device does
Spotted(rs) == SelectSeq(rs, LAMBDA r : r.k = "spot")
Forwarded == [][act'.in.op \in {"report", "hangup", "close"} =>
                  act'.out.sp = [x \in DOMAIN Spotted(act'.in.r) |-> <<Spotted(act'.in.r)[x].x, Spotted(act'.in.r)[x].f>>]]_vars
\* ---- C28 ----
\* nothing is streamed after the end
Ended == [][over => act'.out.c = <<>>]_vars
====
