----------------------------- MODULE TextProcessor -----------------------------
(* The search for callsigns in the decoded text, the evidence that is collected *)
(* for each of them, and the spots that follow from it. Texts are sequences of  *)
(* characters. The specification scans character by character; the sum of what  *)
(* it finds does not depend on how the text is split into writes.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES st,      \* "in": a blank came, and word is all that came since; "out": otherwise
          word,
          count,   \* how often each call was accepted
          last,    \* the call that was spotted last, <<>> if none
          idle,    \* milliseconds since the last write
          data,    \* the reference data: [dx, pre, scp], pre and scp are sequences of texts
          held, queue,   \* the user of the reports is busy: what was written meanwhile
          act
vars == <<st, word, count, last, idle, data, held, queue, act>>

LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Letters == {LowerSeq[x] : x \in 1..26}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
AlNum == Letters \cup Digits
WordChars == AlNum \cup {"/"}
Blanks == {" ", "\n", "\t"}
UpperOf == [c \in AlNum \cup {"/"} |-> IF c \in Letters THEN UpperSeq[CHOOSE x \in 1..26 : LowerSeq[x] = c] ELSE c]
Upper(w) == [x \in 1..Len(w) |-> UpperOf[w[x]]]
SpottingThreshold == 3
WriteTimeout == 5000
FalsePositive == <<"t", "u", "5", "n", "n">>

\* ---- the grammar of callsigns: [prefix/]base[/suffix][/condition] ----
RunLen(w, from) ==      \* the length of the run of letters and digits
  LET ends == {x \in from..Len(w) : w[x] \notin AlNum} IN
  (IF ends = {} THEN Len(w) + 1 ELSE CHOOSE x \in ends : \A y \in ends : x <= y) - from
At(w, x, S) == x <= Len(w) /\ w[x] \in S
\* a base call has one or two letters, maybe with a digit in front, then a digit, and ends with a letter
BaseHead(w, f) ==      \* the position of the first digit that may follow a country prefix, 0 if there is none
  IF At(w, f, Letters) /\ At(w, f + 1, Digits) THEN f + 1
  ELSE IF At(w, f, AlNum) /\ At(w, f + 1, Letters) /\ At(w, f + 2, Digits) THEN f + 2
  ELSE IF At(w, f, Digits) /\ At(w, f + 1, Letters) /\ At(w, f + 2, Letters) /\ At(w, f + 3, Digits) THEN f + 3
  ELSE 0
BaseEnd(w, f) ==       \* the last position of the base call that begins at f, 0 if there is none
  LET h == BaseHead(w, f)
      e == f + RunLen(w, f) - 1
      ls == {x \in h + 1..e : w[x] \in Letters}
  IN IF h = 0 \/ ls = {} THEN 0 ELSE CHOOSE x \in ls : \A y \in ls : x >= y
Conditions == {<<"p">>, <<"a">>, <<"m">>, <<"m", "m">>, <<"a", "m">>}
None == [len |-> 0]
\* what follows the base call
Suffixed(w, f, prefix, e) ==
  LET complete == e = f + RunLen(w, f) - 1
      base == SubSeq(w, f, e)
      s == IF complete /\ At(w, e + 1, {"/"}) THEN RunLen(w, e + 2) ELSE 0
      suffix == SubSeq(w, e + 2, e + 1 + s)
      e2 == IF s = 0 THEN e ELSE e + 1 + s
      c == IF s > 0 /\ At(w, e2 + 1, {"/"}) THEN RunLen(w, e2 + 2) ELSE 0
      cond == SubSeq(w, e2 + 2, e2 + 1 + c)
  IN IF cond \in Conditions THEN [len |-> e2 + 1 + c, prefix |-> prefix, base |-> base, suffix |-> suffix, cond |-> cond]
     ELSE IF suffix \in Conditions THEN [len |-> e2, prefix |-> prefix, base |-> base, suffix |-> <<>>, cond |-> suffix]
     ELSE [len |-> e2, prefix |-> prefix, base |-> base, suffix |-> suffix, cond |-> <<>>]
\* the callsign that a word begins with
Match(w) ==
  LET r == RunLen(w, 1) IN
  IF r > 0 /\ At(w, r + 1, {"/"}) /\ BaseEnd(w, r + 2) > 0 THEN Suffixed(w, r + 2, SubSeq(w, 1, r), BaseEnd(w, r + 2))
  ELSE IF BaseEnd(w, 1) > 0 THEN Suffixed(w, 1, <<>>, BaseEnd(w, 1))
  ELSE None
CallText(m) ==
  (IF m.prefix = <<>> THEN <<>> ELSE Upper(m.prefix) \o <<"/">>) \o Upper(m.base)
  \o (IF m.suffix = <<>> THEN <<>> ELSE <<"/">> \o Upper(m.suffix))
  \o (IF m.cond = <<>> THEN <<>> ELSE <<"/">> \o m.cond)

\* ---- evidence and spots; a processing state is [st, word, count, last, out] ----
Weight(c) == IF c \in Range(data.scp) THEN 1 ELSE 0
Valid(w, m) == /\ ~IsPrefix(FalsePositive, SubSeq(w, 1, m.len))
               /\ data.dx => \E p \in Range(data.pre) : IsPrefix(p, CallText(m))
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Best(cnt) == LET sum(c) == cnt[c] + Weight(c) IN
  {c \in DOMAIN cnt : sum(c) >= SpottingThreshold /\ \A d \in DOMAIN cnt : sum(d) <= sum(c)}
Decoded(c, n) == [k |-> "dec", c |-> c, n |-> n, w |-> Weight(c)]
Spotted(c) == [k |-> "spot", c |-> c, n |-> 0, w |-> 0]
TimedOut(c) == [k |-> "timeout", c |-> c, n |-> 0, w |-> 0]
Accept(s, c) ==
  LET cnt == Put(s.count, c, 1 + IF c \in DOMAIN s.count THEN s.count[c] ELSE 0)
      out == Append(s.out, Decoded(c, cnt[c]))
      best == Best(cnt)
  IN IF best = {} THEN {[s EXCEPT !.count = cnt, !.out = out]}
     ELSE {[s EXCEPT !.count = cnt, !.last = b,
                     !.out = (IF s.last \notin {<<>>, b} THEN Append(out, TimedOut(s.last)) ELSE out) \o <<Spotted(b)>>] : b \in best}
Settle(s) ==       \* the word is complete
  LET m == Match(s.word) IN
  IF s.st = "out" \/ m = None \/ ~Valid(s.word, m) THEN {s} ELSE Accept(s, CallText(m))
Feed1(s, ch) ==
  IF ch \in WordChars THEN {IF s.st = "in" THEN [s EXCEPT !.word = Append(@, ch)] ELSE s}
  ELSE {[x EXCEPT !.st = IF ch \in Blanks THEN "in" ELSE "out", !.word = <<>>] : x \in Settle(s)}
FeedAll(S, text) == FoldLeft(LAMBDA T, ch : UNION {Feed1(s, ch) : s \in T}, S, text)
State == [st |-> st, word |-> word, count |-> count, last |-> last, out |-> <<>>]

\* ---- transitions ----
Fresh == st' = "out" /\ word' = <<>> /\ count' = <<>> /\ last' = <<>> /\ idle' = 0
Init0(d) == /\ st = "out" /\ word = <<>> /\ count = <<>> /\ last = <<>> /\ idle = 0 /\ data = d
            /\ held = FALSE /\ queue = <<>> /\ act = [in |-> [op |-> "init"], out |-> <<>>]
Out(in, o) == act' = [in |-> in, out |-> o]
Becomes(s) == st' = s.st /\ word' = s.word /\ count' = s.count /\ last' = s.last
Stay == UNCHANGED <<st, word, count, last>>
Do(in) ==
  CASE in.op = "new" -> \* a new processor, with other reference data
        /\ Fresh /\ data' = in.data /\ held' = FALSE /\ queue' = <<>> /\ Out(in, <<>>)
    [] in.op = "write" ->
        /\ idle' = 0
        /\ IF held THEN queue' = Append(queue, in.text) /\ Stay /\ Out(in, <<>>)
                   ELSE queue' = queue /\ \E s \in FeedAll({State}, in.text) : Becomes(s) /\ Out(in, s.out)
        /\ UNCHANGED <<data, held>>
    [] in.op = "tick" -> /\ idle' = idle + in.ms /\ Out(in, <<>>) /\ Stay /\ UNCHANGED <<data, held, queue>>
    [] in.op = "check" -> \* the regular look at the write timeout
        /\ ~held
        /\ IF idle > WriteTimeout /\ st = "in" /\ Match(word) # None
             THEN \E s \in Settle(State) : Becomes([s EXCEPT !.st = "out", !.word = <<>>]) /\ Out(in, s.out)
             ELSE Stay /\ Out(in, <<>>)
        /\ UNCHANGED <<idle, data, held, queue>>
    [] in.op = "hold" -> \* the next report finds the user busy
        /\ ~held /\ held' = TRUE /\ queue' = <<>> /\ Out(in, <<>>) /\ Stay /\ UNCHANGED <<idle, data>>
    [] in.op = "release" ->
        /\ held /\ held' = FALSE /\ queue' = <<>>
        /\ \E s \in FeedAll({State}, FlattenSeq(queue)) : Becomes(s) /\ Out(in, s.out)
        /\ UNCHANGED <<idle, data>>
    [] in.op = "restart" -> \* what was written before is processed before or not at all
        /\ \E n \in 0..Len(queue) : \E s \in FeedAll({State}, FlattenSeq(SubSeq(queue, 1, n))) : Out(in, s.out)
        /\ Fresh /\ held' = FALSE /\ queue' = <<>> /\ UNCHANGED <<data>>
=============================================================================
