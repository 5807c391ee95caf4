---- MODULE MC_TextProcessor ----
EXTENDS TextProcessor, TLC, Json
CONSTANTS Chunks, Datas, MaxWord, MaxCount, MaxQueue, Restarts, NamesOnly
\* chunks for the search
B == " "
ScanChunks == {<<B>>, <<"k">>, <<"1">>, <<"/">>, <<"?">>, <<B,"k","1","k",B,"1">>, <<"1","k","/","1",B,"k","1","k","/">>, <<"k", "/", "k", "1", "k", "?", B>>}
ScanDatas == {[dx |-> FALSE, pre |-> <<>>, scp |-> <<>>], [dx |-> TRUE, pre |-> << <<"1">>, <<"K", "1", "K", "/">> >>, scp |-> <<>>]}
\* chunks for the evidence
SpotChunks == {<<B, "k", "1", "k", B>>, <<B, "d", "1", "d", B>>, <<B, "d", "1", "d", "/", "p", B>>,
               <<B, "k", "1", "k", B, "d", "1", "d", B, "k", "1", "k", B, "d", "1", "d">>}
SpotDatas == {[dx |-> FALSE, pre |-> <<>>, scp |-> <<>>], [dx |-> TRUE, pre |-> << <<"D">>, <<"K">> >>, scp |-> << <<"D", "1", "D">> >>]}
HoldChunks == {<<B, "k", "1", "k", B>>, <<B, "d", "1", "d">>, <<B>>}
HoldDatas == {[dx |-> FALSE, pre |-> <<>>, scp |-> << <<"D", "1", "D">> >>]}

MCInit == Init0([dx |-> FALSE, pre |-> <<>>, scp |-> <<>>])
Inputs == {[op |-> "write", text |-> c] : c \in Chunks}
     \cup {[op |-> "new", data |-> d] : d \in Datas}
     \cup (IF NamesOnly THEN {[op |-> "tick", ms |-> IF idle = 0 THEN 5000 ELSE 1], [op |-> "check"]} ELSE {})
     \cup (IF Restarts THEN {[op |-> "restart"]} ELSE {})
     \cup (IF MaxQueue > 0 THEN {[op |-> "hold"], [op |-> "release"]} ELSE {})
MCNext == \E in \in Inputs : Do(in)
Idle == IF idle > WriteTimeout THEN 5001 ELSE idle
View == IF NamesOnly THEN <<st, word, Idle, data>> ELSE <<st, word, count, last, data, held, queue>>
Total == LET RECURSIVE sum(_) sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN count[x] + sum(X \ {x}) IN sum(DOMAIN count)
Bound == Len(word) <= MaxWord /\ Len(queue) <= MaxQueue /\ (NamesOnly \/ Total <= MaxCount)
Name(e) == e.c
Names(o) == [x \in DOMAIN SelectSeq(o, LAMBDA e : e.k = "dec") |-> SelectSeq(o, LAMBDA e : e.k = "dec")[x].c]
Emit == Bound' => PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> IF NamesOnly THEN Names(act'.out) ELSE act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- C06 ----
SplitsAlike ==    \* it does not matter how a text is split
  \A c \in Chunks : \A n \in 0..Len(c) :
    FeedAll({State}, c) = FeedAll(FeedAll({State}, SubSeq(c, 1, n)), SubSeq(c, n + 1, Len(c)))
\* an independent definition: a candidate for each blank, made of what follows up to the next character that is not part of a word
Pending == IF st = "in" THEN <<" ">> \o word ELSE <<>>
WordAt(t, x) == LET ends == {y \in x + 1..Len(t) : t[y] \notin WordChars} IN
                IF ends = {} THEN <<>> ELSE SubSeq(t, x + 1, (CHOOSE y \in ends : \A z \in ends : y <= z) - 1)
Found(t) == LET pos == {x \in 1..Len(t) : t[x] \in Blanks /\ LET w == WordAt(t, x) IN w # <<>> /\ Match(w) # None /\ Valid(w, Match(w))} IN
            [x \in 1..Cardinality(pos) |-> CallText(Match(WordAt(t, CHOOSE p \in pos : Cardinality({q \in pos : q <= p}) = x)))]
FindsAll == [][act'.in.op = "write" /\ ~held => Names(act'.out) = Found(Pending \o act'.in.text)]_vars
\* a callsign is a callsign: whatever is accepted has the form of one, and its text parses to itself
Lowered(c) == [x \in 1..Len(c) |-> IF \E y \in 1..26 : UpperSeq[y] = c[x] THEN LowerSeq[CHOOSE y \in 1..26 : UpperSeq[y] = c[x]] ELSE c[x]]
WellFormed == \A c \in DOMAIN count : LET w == Lowered(c) IN Match(w) # None /\ Match(w).len = Len(w) /\ CallText(Match(w)) = c
\* ---- C05 ----
Sum(c, cnt) == cnt[c] + Weight(c)
OnlyWithEvidence == last # <<>> => last \in DOMAIN count /\ Sum(last, count) >= SpottingThreshold
BestWins == (last # <<>>) => \A c \in DOMAIN count : Sum(c, count) <= Sum(last, count)
AllSpotted == (\E c \in DOMAIN count : Sum(c, count) >= SpottingThreshold) => last # <<>>
Announced == [][LET o == act'.out IN \A x \in DOMAIN o :
    /\ o[x].k = "timeout" => x < Len(o) /\ o[x + 1].k = "spot" /\ o[x + 1].c # o[x].c
    /\ o[x].k = "spot" => x > 1 /\ \/ o[x - 1].k = "dec"
                                   \/ x > 2 /\ o[x - 1].k = "timeout" /\ o[x - 2].k = "dec"]_vars
\* ---- C07 ----
Scratch == [][act'.in.op \in {"restart", "new"} => st' = "out" /\ word' = <<>> /\ count' = <<>> /\ last' = <<>> /\ queue' = <<>> /\ idle' = 0]_vars
====
