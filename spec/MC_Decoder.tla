---- MODULE MC_Decoder ----
EXTENDS Decoder, TLC, Json
CONSTANTS Dit, MarkRuns, GapRuns, MaxLevel, Debounces
MCInit == Init0(Dit)
Inputs == {[op |-> "run", key |-> TRUE, n |-> n] : n \in MarkRuns} \cup {[op |-> "run", key |-> FALSE, n |-> n] : n \in GapRuns}
     \cup {[op |-> "restart"]}
     \cup (IF act.in.op = "restart" THEN {[op |-> "debounce", n |-> n] : n \in Debounces} ELSE {})
MCNext == \E in \in Inputs : Do(in)
View == <<dec, deb, act.in.op = "restart">>
Bound == TLCGet("level") < MaxLevel
Emit == TLCGet("level") < MaxLevel => PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- C13 ----
Texts(o) == [x \in DOMAIN o |-> o[x][2]]
Known == {Code[x][1] : x \in DOMAIN Code} \cup {Blank, Unknown}
OnlyKnown == [][\A x \in DOMAIN act'.out : act'.out[x][2] \in Known]_vars
Sane == /\ Len(dec.sym) <= MaxSymbols /\ \A x \in DOMAIN dec.sym : dec.sym[x] \in {1, 3}
        /\ dec.on.la <= dec.on.lb /\ dec.off.la <= dec.off.lb /\ dec.on.ha <= dec.on.hb /\ dec.off.ha <= dec.off.hb
InOrder == [][\A x, y \in DOMAIN act'.out : x < y => act'.out[x][1] <= act'.out[y][1]]_vars
NoDoubt ==      \* a pending character is not forgotten: it is output as soon as the silence is long enough
  ~dec.key /\ dec.decoding => dec.dur <= ((AbortAfter * MeanUp(dec.off)) \div U) + 1
\* each mark of a sufficient duration becomes part of exactly one character
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
NothingLost == [][act'.in.op = "run" /\ dec.sym # <<>> => \/ IsPrefixOf(dec.sym, dec'.sym) \/ Len(act'.out) > 0]_vars
\* ---- C07 ----
ResetForgets == [][act'.in.op = "restart" => dec' = Fresh(dit) /\ deb'.cnt = 0 /\ ~deb'.last]_vars
====
