---- MODULE MC_AudioDemod ----
EXTENDS AudioDemod, TLC, Json
CONSTANTS Mode, MaxLevel
Cfg == [rate |-> 8000, block |-> 44]
MCInit == AInit(Cfg)
Amps == CASE Mode = "split" -> {0, 1000} [] Mode = "settings" -> {0, 80, 500, 1000} [] OTHER -> {0, 1000}
\* samples per write: pieces of a block in one channel or two, and many blocks
Rest == set.channels * (44 - pos) - (IF ph > 0 THEN set.channels - ph ELSE 0)   \* until the block ends
Sizes == CASE Mode = "split" -> IF pos = 0 /\ ph = 0 THEN {13, 44 * 12 * set.channels, 44 * 37 * set.channels, 44 * 150 * set.channels}
                                ELSE {1, Rest, Rest + 44 * 12 * set.channels} \ {0}
           [] OTHER -> {44 * 12 * set.channels}
Writes == {[op |-> "write", n |-> n, amp |-> a] : n \in Sizes, a \in IF pos = 0 THEN Amps ELSE {amp}}
Sets == CASE Mode = "split" -> IF pos = 0 /\ act.in.op \in {"init", "set"} THEN {<<"channels", 1>>, <<"channels", 2>>, <<"channels", 3>>} ELSE {}
          [] Mode = "settings" -> {<<"maxscale", 3000>>, <<"maxscale", 12000>>, <<"scale", 0>>, <<"scale", 2000>>, <<"scale", 1000>>, <<"threshold", 300>>, <<"threshold", 750>>,
                                   <<"debounce", 2>>, <<"debounce", 14>>, <<"wpm", 28>>}
          [] OTHER -> {<<"debounce", 2>>}
Gets == {"maxscale", "threshold", "debounce"} \cup (IF act.in.op = "set" /\ act.in.what = "wpm" THEN {"wpm"} ELSE {})
Inputs == Writes \cup {[op |-> "set", what |-> s[1], v |-> s[2]] : s \in Sets}
          \cup (IF Mode = "split" THEN {} ELSE {[op |-> "get", what |-> w] : w \in Gets})
          \cup {[op |-> "close"]} \cup (IF Mode = "close" THEN {[op |-> "closebusy"]} ELSE {})
MCNext == \E in \in Inputs : Do2(in)
View == <<dec, deb, dit, set, ph, pos, amp, closed, IF act.in.op = "set" THEN act.in.what ELSE act.in.op = "init">>
Bound == TLCGet("level") < MaxLevel
Emit == TLCGet("level") < MaxLevel => PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- C15 ----
Sane == /\ pos \in 0..(cfg.block - 1) /\ ph \in 0..(set.channels - 1) /\ (pos = 0 => amp = 0)
\* what some blocks do together, they do one after another
SplitFree == \A k \in BOOLEAN : \A a \in {1, 2, 12} : \A b \in {1, 5, 140} :
  KeyFrom(dec, deb, k, a + b) = UNION {{<<r2[1], r2[2], r1[3] \o r2[3]>> : r2 \in KeyFrom(r1[1], r1[2], k, b)} : r1 \in KeyFrom(dec, deb, k, a)}
ClosedForever == [][closed => closed' /\ act'.out = "returned"]_allvars
GetsTheSet == [][act'.in.op = "get" /\ ~closed => act'.out = set[act'.in.what]]_allvars
PendingOut == [][act'.in.op = "close" /\ ~closed => act'.out.text = Character(dec)]_allvars
====
