---- MODULE MC_Rolling ----
EXTENDS Rolling, TLC, Json
CONSTANTS Sizes, Values, Specials, Depth
MCValues == {0, 1, -2}
GValues == {0, 1, -2, 5}
MCSpecials == {Inf, NInf, Big}
VARIABLE put      \* the last Depth values that were put since creation or reset, newest first (history)
Vals == IF kind = "mean" THEN Values \cup Specials ELSE IF kind = "var" THEN Values \cup (Specials \ {Big}) ELSE Values
News == [op : {"new"}, kind : {"mean", "imean", "var", "hist"}, n : Sizes]
Inputs == IF n = 0 THEN News
          ELSE [op : {"put"}, v : Vals] \cup {[op |-> "clear"]}
               \cup (IF kind = "hist"
                     THEN [op : {"get", "sum", "max", "min", "mean", "variance"}, k : 1..n]
                          \cup [op : {"sumat", "maxat", "minat"}, x : {<<1>>, <<n>>, <<1, n>>, <<n, 1>>}]
                     ELSE {[op |-> "get", k |-> 1]})
MCInit == Init /\ put = <<>>
MCNext == \E in \in Inputs : /\ Do(in)
                             /\ put' = CASE in.op = "put" -> LET s == <<in.v>> \o put IN SubSeq(s, 1, IF Len(s) > Depth THEN Depth ELSE Len(s))
                                         [] in.op = "clear" -> <<>>
                                         [] OTHER -> put
GNext == \E in \in Inputs : Do(in) /\ put' = put
View == <<kind, n, win>>
FView == <<kind, n, win, put>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* the window is exactly what was put last, zeros before: earlier values leave no trace
WindowIsHistory == \A i \in 1..n : win[i] = IF i <= Len(put) THEN put[i] ELSE 0
Recovers == [][(act'.in.op = "put" /\ kind \in {"mean","var"} /\ \A i \in 1..n : win'[i] \in Values) => act'.out.c = "fin"]_<<vars, put>>
Ordered == [][(kind = "hist" /\ act'.in.op = "max") => \A i \in 1..act'.in.k : act'.out.v >= win[i]]_<<vars, put>>
====
