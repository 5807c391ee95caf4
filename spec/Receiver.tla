-------------------------------- MODULE Receiver --------------------------------
(* The receiver: it looks for signals in the spectrum of the IQ data, lets         *)
(* listeners listen to them and decode them, and reports what they find. It is     *)
(* seen in epochs of 100 blocks, at the end of which it looks for signals. Time    *)
(* is in seconds and passes between the epochs only. Listeners are named by the    *)
(* lowest number that is not in use.                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Pool,      \* number of listeners
          Mode,      \* "strain" or "decode"
          Calls,     \* the words that are callsigns
          Spotting,  \* evidence for a spot
          Expiry,    \* seconds until a signal may be tried again
          Flush,     \* seconds of silence after which the end of the text counts as the end of a word
          Cap        \* ages are not told apart beyond this
VARIABLES run,       \* the receiver was started
          set,       \* the settings
          table,     \* the signals that were detected: bin -> [st, age]
          ls,        \* listeners: number -> [bin, f, at, wr, count, last, tail, key, ok]
          printing,  \* the number of the listener whose text is printed, 0: none
          act
vars == <<run, set, table, ls, printing, act>>
Nobody == <<>>
Default == [silence |-> 20, busy |-> 120, thr |-> 15, edge |-> 4, deb |-> 1, scope |-> "none", center |-> 0, vfo |-> 0]
Init0 == /\ run = FALSE /\ set = Default /\ table = <<>> /\ ls = [x \in 1..Pool |-> Nobody] /\ printing = 0
         /\ act = [in |-> [op |-> "init"], out |-> <<>>]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Busy == {x \in 1..Pool : ls[x] # Nobody}
On(l, b) == {x \in 1..Pool : l[x] # Nobody /\ l[x].bin = b}
Aged(age, d) == IF age + d > Cap THEN Cap ELSE age + d
Token(center, bin) == center * 1000 + bin
Without(t, S) == [b \in DOMAIN t \ S |-> t[b]]
With(t, b, v) == [x \in DOMAIN t \cup {b} |-> IF x = b THEN v ELSE t[x]]

\* ---- reports ----
Ev(k, x, f, c, n) == [k |-> k, id |-> x, f |-> f, c |-> c, n |-> n]
Taken(x, f) == Ev("on", x, f, "", 0)
Left(x, f) == Ev("off", x, f, "", 0)
RECURSIVE Concat(_, _)
Concat(f, n) == IF n = 0 THEN <<>> ELSE Concat(f, n - 1) \o f[n]
\* the reports of each listener, in the order of their numbers
ById(evs) == Concat([x \in 1..Pool |-> SelectSeq(evs, LAMBDA e : e.id = x)], Pool)

\* ---- listening to text; a result is <<listener, reports>> ----
Fresh(b, f) == [bin |-> b, f |-> f, at |-> 0, wr |-> 0, count |-> <<>>, last |-> "", tail |-> "", key |-> "fresh", ok |-> TRUE]
Heard(l, x, c) ==
  LET n == IF c \in DOMAIN l.count THEN l.count[c] + 1 ELSE 1
      cnt == With(l.count, c, n)
      most == CHOOSE m \in {cnt[k] : k \in DOMAIN cnt} : \A k \in DOMAIN cnt : cnt[k] <= m
      dec == <<Ev("dec", x, l.f, c, n)>>
  IN IF most < Spotting THEN {<<[l EXCEPT !.count = cnt], dec>>}
     ELSE {<<[l EXCEPT !.count = cnt, !.last = b],
             dec \o (IF l.last \notin {"", b} THEN <<Ev("gone", x, l.f, l.last, 0)>> ELSE <<>>) \o <<Ev("spot", x, l.f, b, 0)>> >>
           : b \in {k \in DOMAIN cnt : cnt[k] = most}}
RECURSIVE HeardAll(_, _, _)
HeardAll(R, x, words) ==
  IF words = <<>> THEN R
  ELSE HeardAll(IF Head(words) \in Calls THEN UNION {{<<h[1], r[2] \o h[2]>> : h \in Heard(r[1], x, Head(words))} : r \in R} ELSE R, x, Tail(words))
\* the text is " word word ... word"; of the last word it is not known yet whether it is complete
Listened(l, x, words) ==
  LET open == l.tail
      w == <<open>> \o words
      lst == w[Len(w)]
  IN {<<[r[1] EXCEPT !.wr = 0, !.key = "off", !.tail = IF lst \in Calls THEN lst ELSE ""], r[2]>>
      : r \in HeardAll({<<l, <<>> >>}, x, SubSeq(w, 1, Len(w) - 1))}

Now == [t |-> table, l |-> ls, e |-> <<>>]
\* ---- one epoch; a result is [t |-> table, l |-> listeners, e |-> reports] ----
Overdue(l) == Mode = "strain" /\ (l.at > set.busy \/ l.wr > set.silence)
Release(r) == \* the listeners whose time is over
  LET gone == {x \in 1..Pool : r.l[x] # Nobody /\ Overdue(r.l[x])} IN
  [t |-> [b \in DOMAIN r.t |-> IF \E x \in gone : r.l[x].bin = b THEN [r.t[b] EXCEPT !.st = "left"] ELSE r.t[b]],
   l |-> [x \in 1..Pool |-> IF x \in gone THEN Nobody ELSE r.l[x]],
   e |-> r.e \o Concat([x \in 1..Pool |-> IF x \in gone THEN <<Left(x, r.l[x].f)>> ELSE <<>>], Pool)]
\* quick keying has marks of 4 ticks only, noisy keying is disturbed for 2 ticks now and then
Legible(s) == CASE s.k = "quick" -> set.deb <= 4 [] s.k = "noisy" -> set.deb \in 3..4 [] OTHER -> set.deb <= 4
\* a carrier ends the last word, unless there was no gap before it
Audible(s) == s.k = "on" /\ s.lv >= 30
Marked(l, x) == IF l.key = "off" THEN {<<[r[1] EXCEPT !.wr = 0, !.tail = "", !.key = "on"], r[2]>> : r \in HeardAll({<<l, <<>> >>}, x, <<l.tail>>)}
                ELSE {<<[l EXCEPT !.key = "on"], <<>> >>}
Hears(l, x, s) == IF Audible(s) THEN Marked(l, x)
                  ELSE IF s.k = "on" THEN {<<[l EXCEPT !.key = "off"], <<>> >>}
                  ELSE IF Legible(s) THEN Listened(l, x, s.w)
                  ELSE {<<[l EXCEPT !.wr = w, !.key = "off", !.ok = FALSE], <<>> >> : w \in {0, l.wr}}
\* what was illegible may end with a character at any time
Keyed(l, x, s) == LET H == Hears(l, x, s) IN IF l.ok THEN H ELSE H \cup {<<[h[1] EXCEPT !.wr = 0], h[2]>> : h \in H}
SignalOn(sig, b) == IF \E y \in DOMAIN sig : sig[y].b = b THEN sig[CHOOSE y \in DOMAIN sig : sig[y].b = b] ELSE [k |-> "on", lv |-> 0]
Listens(R, X, sig) == \* listeners X hear their signals
  LET RECURSIVE each(_, _)
      each(Q, Y) == IF Y = {} THEN Q
                    ELSE LET x == Least(Y) IN
                         each(UNION {IF r.l[x] = Nobody THEN {r}
                                     ELSE {[r EXCEPT !.l = [@ EXCEPT ![x] = h[1]], !.e = @ \o h[2]] : h \in Keyed(r.l[x], x, SignalOn(sig, r.l[x].bin))} : r \in Q}, Y \ {x})
  IN each(R, X)
\* a mark that begins with the first block counts for the first block
Early(sig) == IF set.deb > 1 THEN {} ELSE {x \in Busy : Audible(SignalOn(sig, ls[x].bin)) /\ ls[x].key = "off"}
Heeds(sig) == UNION {Listens({Release(r)}, Busy \ Early(sig), sig) : r \in Listens({Now}, Early(sig), sig)}
\* what this specification says nothing about: keyed signals that nobody listens to, and listeners that were given illegible signals
Specified(sig) == \A y \in DOMAIN sig : sig[y].k \notin {"on", "low"} =>
  /\ \E x \in Busy : /\ ls[x].bin = sig[y].b /\ ls[x].ok /\ (Legible(sig[y]) \/ ls[x].tail = "")
  /\ sig[y].k = "noisy" => set.deb # 1
\* the end of an epoch: the signals are entered, and one of the new ones is taken
\* the level of the noise is the lowest one between the edges; a signal of kind "low" means that the noise is this much lower outside of 20 bins
Drop(sig) == IF set.edge >= 20 THEN 0 ELSE IF \E y \in DOMAIN sig : sig[y].k = "low" THEN sig[CHOOSE y \in DOMAIN sig : sig[y].k = "low"].lv ELSE 0
Detected(sig) == {sig[x].b : x \in {y \in DOMAIN sig : sig[y].k = "on" /\ sig[y].lv + Drop(sig) > set.thr}}
Boundary(r, sig) ==
  LET free == {x \in 1..Pool : r.l[x] = Nobody}
      t == [b \in DOMAIN r.t \cup Detected(sig) |-> IF b \in DOMAIN r.t /\ (r.t[b].st # "new" \/ b \notin Detected(sig)) THEN r.t[b] ELSE [st |-> "new", age |-> 0]]
      new == {b \in DOMAIN t : t[b].st = "new"}
  IN IF Mode # "strain" \/ free = {} THEN {r}
     ELSE IF new = {} THEN {[r EXCEPT !.t = t]}
     ELSE {LET x == Least(free) f == Token(set.center, b) IN
           [t |-> [t EXCEPT ![b].st = "taken"], l |-> [r.l EXCEPT ![x] = Fresh(b, f)], e |-> Append(r.e, Taken(x, f))] : b \in new}
\* a new listener hears its signal from the next epoch on
Settled(r, sig) == [r EXCEPT !.l = [x \in 1..Pool |->
  IF r.l[x] # Nobody /\ r.l[x].key = "fresh" THEN [r.l[x] EXCEPT !.key = IF Audible(SignalOn(sig, r.l[x].bin)) THEN "on" ELSE "off"] ELSE r.l[x]]]
RECURSIVE Boundaries(_, _, _)
\* (the sets let TLC evaluate the values once); it ends early when nothing changes any more
Boundaries(R, sig, n) ==
  IF n = 0 THEN R
  ELSE UNION {UNION {UNION {IF q2 = r THEN {r} ELSE Boundaries({q2}, sig, n - 1) : q2 \in Boundary(q1, sig)} : q1 \in {Settled(r, sig)}} : r \in R}
\* what is printed: the words that the listener hears whose text is printed
Texts(l, sig, p) == {IF p \in 1..Pool /\ l[p] # Nobody /\ l[p].bin = sig[y].b THEN sig[y].w ELSE <<>> : y \in DOMAIN sig} \ {<<>>}
Printed(l, sig, p) == LET T == Texts(l, sig, p) IN IF T = {} THEN <<>> ELSE CHOOSE w \in T : TRUE
\* the number of listeners that show their signals on the scope
Shown(l) == IF set.scope = "none" THEN 0 ELSE Cardinality({x \in 1..Pool : l[x] # Nobody})
Result(r, txt, sc) == [ev |-> ById(r.e), txt |-> txt, sc |-> sc]
Nothing == Result(Now, <<>>, <<"none", 0>>)
Out(in, o) == act' = [in |-> in, out |-> o]
\* printing stops with the listener
Still(l) == IF printing > 0 /\ l[printing] = Nobody THEN 0 ELSE printing
AllLeft == Result([Now EXCEPT !.e = Concat([x \in 1..Pool |-> IF ls[x] = Nobody THEN <<>> ELSE <<Left(x, ls[x].f)>>], Pool)], <<>>, <<"none", 0>>)
\* the only listener of the decode mode listens to the VFO
Bind(in, s) == LET f == Token(s.center, s.vfo) IN
           /\ ls' = [ls EXCEPT ![1] = Fresh(s.vfo, f)] /\ printing' = 1
           /\ Out(in, Result([Now EXCEPT !.e = AllLeft.ev \o <<Taken(1, f)>>], <<>>, <<"none", 0>>))
Do(in) ==
  CASE in.op = "start" ->
         /\ run' = TRUE /\ table' = (IF run THEN table ELSE <<>>) /\ UNCHANGED <<set>>
         /\ IF ~run /\ Mode = "decode" /\ set.vfo # 0 THEN Bind(in, set) ELSE UNCHANGED <<ls, printing>> /\ Out(in, Nothing)
    [] in.op = "stop" -> \* nobody listens any more
         /\ run' = FALSE /\ table' = <<>> /\ ls' = [x \in 1..Pool |-> Nobody] /\ set' = set
         /\ printing' = 0
         /\ Out(in, AllLeft)
    [] in.op = "set" -> /\ set' = [set EXCEPT ![in.k] = in.v] /\ run' = run
                        \* with another center frequency the bins get another meaning
                        /\ IF in.k # "center" \/ in.v = set.center \/ ~run THEN UNCHANGED <<table, ls, printing>> /\ Out(in, Nothing)
                           ELSE /\ table' = <<>>
                                /\ IF Mode = "decode" /\ set.vfo # 0 THEN Bind(in, set')
                                   ELSE ls' = [x \in 1..Pool |-> Nobody] /\ printing' = 0 /\ Out(in, AllLeft)
    [] in.op = "get" -> UNCHANGED <<run, set, table, ls, printing>> /\ Out(in, [Nothing EXCEPT !.ev = <<Ev("center", 0, set.center, "", 0)>>])
    [] in.op = "vfo" ->
         /\ UNCHANGED <<run>> /\ set' = [set EXCEPT !.vfo = in.b]
         /\ IF ~run THEN UNCHANGED <<table, ls, printing>> /\ Out(in, Nothing)
            ELSE IF Mode = "strain"
            THEN /\ printing' = (LET X == On(ls, in.b) IN IF X = {} THEN 0 ELSE Least(X))
                 /\ UNCHANGED <<table, ls>> /\ Out(in, Nothing)
            ELSE table' = table /\ Bind(in, set')
    [] in.op = "feed" -> \* in.n epochs with the signals in.sig; keyed ones pause at the begin and at the end
         IF ~run THEN UNCHANGED <<run, set, table, ls, printing>> /\ Out(in, Nothing)
         ELSE /\ Specified(in.sig)
              /\ \E r1 \in Heeds(in.sig) : \E r2 \in Boundaries({r1}, in.sig, in.n) : LET txt == Printed(r1.l, in.sig, printing) IN
                /\ table' = r2.t /\ ls' = r2.l
                /\ printing' = Still(r1.l)
                /\ UNCHANGED <<run, set>>
                /\ Out(in, Result(r2, txt, <<set.scope, Shown(r1.l)>>))
    [] in.op = "midway" -> \* in.d seconds pass in the middle of an epoch with carriers only: what is over then leaves with the next block
         IF ~run THEN UNCHANGED <<run, set, table, ls, printing>> /\ Out(in, Nothing)
         ELSE /\ Specified(in.sig)
              /\ \E r1 \in Heeds(in.sig) :
                   LET late == [x \in 1..Pool |-> IF r1.l[x] = Nobody THEN Nobody ELSE [r1.l[x] EXCEPT !.at = Aged(@, in.d), !.wr = Aged(@, in.d)]]
                   IN \E r3 \in {Release([r1 EXCEPT !.l = late, !.t = [b \in DOMAIN @ |-> [@[b] EXCEPT !.age = Aged(@, in.d)]]])} :
                      \E r4 \in Boundaries({r3}, in.sig, 1) :
                        /\ table' = r4.t /\ ls' = r4.l /\ printing' = Still(r3.l)
                        /\ UNCHANGED <<run, set>> /\ Out(in, Result(r4, <<>>, <<"none", 0>>))
    [] in.op = "held" -> \* while a listener hears in.sig, the user of the reports is busy until in.d seconds later
         /\ run /\ Specified(in.sig)
         \* the user gets busy with the report about the only callsign
         /\ \A x \in Busy : ls[x].tail = ""
         /\ Len(in.sig) = 1 /\ Len(in.sig[1].w) <= 2 /\ in.sig[1].w[Len(in.sig[1].w)] \notin Calls
         /\ \E r1 \in Heeds(in.sig) : \E r2 \in Boundaries({r1}, in.sig, in.n) : LET txt == Printed(r1.l, in.sig, printing) IN
              LET late == [x \in 1..Pool |-> IF r2.l[x] = Nobody THEN Nobody ELSE [r2.l[x] EXCEPT !.at = Aged(@, in.d), !.wr = Aged(@, in.d)]]
                  r3 == Release([r2 EXCEPT !.l = late, !.t = [b \in DOMAIN @ |-> [@[b] EXCEPT !.age = Aged(@, in.d)]]])
              IN \E r4 \in Boundary(r3, <<>>) :
                 /\ table' = r4.t /\ ls' = r4.l /\ printing' = Still([x \in 1..Pool |-> IF r1.l[x] = Nobody \/ r3.l[x] = Nobody THEN Nobody ELSE ls[x]])
                 /\ UNCHANGED <<run, set>> /\ Out(in, Result(r4, txt, <<set.scope, 0>>))
    [] in.op = "gap" -> \* a while of nothing at all, not even noise, and then noise until the statistics do not know of it any more.
         \* It may have been heard as some character, so nothing is said about later keyed signals of the listeners that were there
         IF ~run THEN UNCHANGED <<run, set, table, ls, printing>> /\ Out(in, Nothing)
         ELSE /\ \A x \in Busy : ls[x].tail = ""
              /\ \E r \in Boundaries({Release(Now)}, <<>>, in.n \div 100 + 2) :
                 /\ table' = r.t /\ printing' = Still(Release(Now).l)
                 /\ \E W \in SUBSET {x \in 1..Pool : r.l[x] # Nobody} :
                      ls' = [x \in 1..Pool |-> IF r.l[x] = Nobody THEN Nobody ELSE [r.l[x] EXCEPT !.wr = IF x \in W THEN 0 ELSE @, !.key = "off", !.ok = FALSE]]
                 /\ UNCHANGED <<run, set>> /\ Out(in, Result(r, <<>>, <<"none", 0>>))
    [] in.op = "tick" ->
         /\ ls' = [x \in 1..Pool |-> IF ls[x] = Nobody THEN Nobody ELSE [ls[x] EXCEPT !.at = Aged(@, in.d), !.wr = Aged(@, in.d)]]
         /\ table' = [b \in DOMAIN table |-> [table[b] EXCEPT !.age = Aged(@, in.d)]]
         /\ UNCHANGED <<run, set, printing>> /\ Out(in, Nothing)
    [] in.op = "cleanup" -> \* comes every second
         /\ UNCHANGED <<run, set, printing>>
         /\ IF ~run THEN UNCHANGED <<table, ls>> /\ Out(in, Nothing)
            ELSE LET X == {x \in Busy : ls[x].wr > Flush /\ ls[x].tail # ""}
                     R == [x \in X |-> Heard([ls[x] EXCEPT !.tail = ""], x, ls[x].tail)]
                 IN /\ table' = Without(table, {b \in DOMAIN table : table[b].st # "taken" /\ table[b].age >= Expiry})
                    /\ \E h \in [X -> UNION {R[x] : x \in X}] : /\ \A x \in X : h[x] \in R[x]
                         /\ ls' = [x \in 1..Pool |-> IF x \in X THEN h[x][1] ELSE ls[x]]
                         /\ Out(in, Result([Now EXCEPT !.e = Concat([x \in 1..Pool |-> IF x \in X THEN h[x][2] ELSE <<>>], Pool)], <<>>, <<"none", 0>>))
================================================================================
