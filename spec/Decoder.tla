------------------------------- MODULE Decoder -------------------------------
(* The Morse decoder: a key that is up or down per tick becomes text. The key   *)
(* is given as runs of equal ticks. Behind an optional debouncer, which sees    *)
(* the raw key. The adaptive thresholds are rational numbers in the code; here  *)
(* each is an interval in units of 1/64 tick that contains the exact value, and *)
(* where the interval does not decide a comparison both results are allowed.    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES dec,     \* the decoder
          deb,     \* the debouncer: [n, last, cnt]; its effective state is the key that the decoder sees
          dit,     \* the preset duration of a dit in ticks
          act
vars == <<dec, deb, dit, act>>

U == 64
MinDuration == 2
MaxSymbols == 8
Unknown == 166
Blank == 32
AbortAfter == 10

\* ---- Morse code: dits are 1, dahs are 3 ----
Code == << \* code points with their marks
  <<97, <<1,3>>>>, <<98, <<3,1,1,1>>>>, <<99, <<3,1,3,1>>>>, <<100, <<3,1,1>>>>, <<101, <<1>>>>, <<102, <<1,1,3,1>>>>,
  <<103, <<3,3,1>>>>, <<104, <<1,1,1,1>>>>, <<105, <<1,1>>>>, <<106, <<1,3,3,3>>>>, <<107, <<3,1,3>>>>, <<108, <<1,3,1,1>>>>,
  <<109, <<3,3>>>>, <<110, <<3,1>>>>, <<111, <<3,3,3>>>>, <<112, <<1,3,3,1>>>>, <<113, <<3,3,1,3>>>>, <<114, <<1,3,1>>>>,
  <<115, <<1,1,1>>>>, <<116, <<3>>>>, <<117, <<1,1,3>>>>, <<118, <<1,1,1,3>>>>, <<119, <<1,3,3>>>>, <<120, <<3,1,1,3>>>>,
  <<121, <<3,1,3,3>>>>, <<122, <<3,3,1,1>>>>,
  <<228, <<1,3,1,3>>>>, <<246, <<3,3,3,1>>>>, <<252, <<1,1,3,3>>>>,
  <<48, <<3,3,3,3,3>>>>, <<49, <<1,3,3,3,3>>>>, <<50, <<1,1,3,3,3>>>>, <<51, <<1,1,1,3,3>>>>, <<52, <<1,1,1,1,3>>>>,
  <<53, <<1,1,1,1,1>>>>, <<54, <<3,1,1,1,1>>>>, <<55, <<3,3,1,1,1>>>>, <<56, <<3,3,3,1,1>>>>, <<57, <<3,3,3,3,1>>>>,
  <<43, <<1,3,1,3,1>>>>, <<45, <<3,1,1,1,1,3>>>>, <<61, <<3,1,1,1,3>>>>, <<46, <<1,3,1,3,1,3>>>>, <<58, <<3,3,3,1,1,1>>>>,
  <<44, <<3,3,1,1,3,3>>>>, <<59, <<3,1,3,1,3,1>>>>, <<63, <<1,1,3,3,1,1>>>>, <<47, <<3,1,1,3,1>>>>, <<39, <<1,3,3,3,3,1>>>>,
  <<34, <<1,3,1,1,3,1>>>>, <<40, <<3,1,3,3,1>>>>, <<41, <<3,1,3,3,1,3>>>>, <<95, <<1,1,3,3,1,3>>>>, <<64, <<1,3,3,1,3,1>>>>,
  <<91, <<3,1,3,1,3>>>>, <<93, <<1,1,1,3,1,3>>>>, <<37, <<1,1,1,3,1>>>>, <<126, <<1,3,1,1,1>>>>, <<167, <<1,1,1,1,1,1,1,1>>>> >>
MarkSeqs == {Code[x][2] : x \in DOMAIN Code}
CharOf == [m \in MarkSeqs |-> (CHOOSE x \in {Code[y] : y \in DOMAIN Code} : x[2] = m)[1]]

\* ---- adaptive thresholds: [la, lb] contains the low value, [ha, hb] the high value ----
Preset(d) == [la |-> d * U, lb |-> d * U, ha |-> 3 * d * U, hb |-> 3 * d * U, last |-> d]
CeilDiv(a, b) == (a + b - 1) \div b
AvgDown(a, d) == (3 * a + d * U) \div 4
AvgUp(b, d) == CeilDiv(3 * b + d * U, 4)
Adapted(t, low, high, d) == [la |-> AvgDown(t.la, low), lb |-> AvgUp(t.lb, low), ha |-> AvgDown(t.ha, high), hb |-> AvgUp(t.hb, high), last |-> d]
\* the results of a comparison of an exact value x with an interval
AtLeast(x, a, b) == IF x >= b THEN {TRUE} ELSE IF x < a THEN {FALSE} ELSE {TRUE, FALSE}
\* the threshold is the geometric mean of both values
AtLeastMean(d, t) == IF d * U > 46340 THEN {TRUE} ELSE AtLeast(d * U * d * U, t.la * t.ha, t.lb * t.hb)
\* whether two successive gaps are both long ones: they differ by less than 2.6, and even the shorter one is above the threshold
BothLong(t, d) == LET s == IF d < t.last THEN d ELSE t.last
                      l == IF d < t.last THEN t.last ELSE d
                  IN IF 10 * l > 26 * s THEN {FALSE}
                     ELSE (IF 10 * l = 26 * s THEN {FALSE} ELSE {}) \cup AtLeastMean(s, t)
Put(t, d, isGap) ==
  UNION {IF ignored THEN {t}
         ELSE UNION {
           IF both THEN {[t EXCEPT !.last = d]}
           ELSE IF t.last >= 2 * d THEN {Adapted(t, d, t.last, d)}
           ELSE IF d >= 2 * t.last THEN {Adapted(t, t.last, d, d)}
           ELSE {[t EXCEPT !.last = d]} : both \in IF isGap THEN BothLong(t, d) ELSE {FALSE}} : ignored \in AtLeast(d * U, 10 * t.la, 10 * t.lb)}
RECURSIVE Root(_, _, _)
Root(p, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= p THEN Root(p, m, hi) ELSE Root(p, lo, m - 1)
MeanDown(t) == Root(t.la * t.ha, 0, 46340)
MeanUp(t) == LET r == Root(t.lb * t.hb, 0, 46340) IN IF r * r = t.lb * t.hb THEN r ELSE r + 1
\* the first durations that may exceed the limit for an unfinished character
Limits(t) == ((AbortAfter * MeanDown(t)) \div U + 1)..((AbortAfter * MeanUp(t)) \div U + 1)

\* ---- characters ----
Fresh(d) == [on |-> Preset(d), off |-> Preset(d), key |-> FALSE, dur |-> 0, decoding |-> FALSE, sym |-> <<>>, bad |-> FALSE]
\* the text that a finished character gives
Character(s) == IF s.sym = <<>> THEN <<>>
                ELSE IF s.bad \/ s.sym \notin MarkSeqs THEN <<Unknown>>
                ELSE <<CharOf[s.sym]>>
Finished(s) == [s EXCEPT !.sym = <<>>, !.bad = FALSE]
\* a result is <<decoder, text>>
MarkOf(s, m) == IF Len(s.sym) < MaxSymbols THEN <<[s EXCEPT !.sym = Append(@, m)], <<>> >>
                ELSE <<[Finished(s) EXCEPT !.sym = <<m>>], Character(s)>>
Falling(s, d) ==      \* the end of a mark of d ticks
  IF d < MinDuration THEN {<<s, <<>> >>}
  ELSE UNION {LET s1 == [s EXCEPT !.on = t] IN
         UNION {IF tooLong THEN {<<[s1 EXCEPT !.bad = TRUE], <<>> >>}
                ELSE {MarkOf(s1, IF long THEN 3 ELSE 1) : long \in AtLeastMean(d, t)}
                : tooLong \in AtLeast(d * U, 2 * t.ha, 2 * t.hb)}
         : t \in Put(s.on, d, FALSE)}
Rising(s, d) ==       \* the end of a gap of d ticks
  IF d < MinDuration THEN {<<s, <<>> >>}
  ELSE UNION {LET s1 == [s EXCEPT !.off = t] IN
         UNION {IF word THEN {<<Finished(s1), Character(s1) \o <<Blank>> >>}
                ELSE {IF char THEN <<Finished(s1), Character(s1)>> ELSE <<s1, <<>> >> : char \in AtLeastMean(d, t)}
                : word \in AtLeast(2 * d * U, 9 * t.la, 9 * t.lb)}
         : t \in Put(s.off, d, TRUE)}
\* the output of a run is a sequence of <<tick within the run, code point>>
Timed(k, text) == [x \in 1..Len(text) |-> <<k, text[x]>>]
\* n more ticks without a change of the key; dur is the duration at the first of them, which is tick k of the run
Hold(s, from, n, k) ==
  IF ~s.decoding THEN {<<[s EXCEPT !.dur = from + n - 1], <<>> >>}
  ELSE UNION {IF lim > from + n - 1 THEN {<<[s EXCEPT !.dur = from + n - 1], <<>> >>}
              ELSE LET k1 == IF lim > from THEN k + lim - from ELSE k IN
                   {<<[Finished(s) EXCEPT !.decoding = FALSE, !.dur = from + n - 1], Timed(k1, Character(s))>>} : lim \in Limits(s.off)}
Run(s, key, n) ==
  IF n = 0 THEN {<<s, <<>> >>}
  ELSE IF key = s.key THEN Hold(s, s.dur + 1, n, 1)
  ELSE UNION {UNION {{<<h[1], Timed(1, e[2]) \o h[2]>> : h \in Hold([e[1] EXCEPT !.key = key, !.decoding = TRUE], 0, n, 1)}}
              : e \in (IF key THEN Rising(s, s.dur + 1) ELSE Falling(s, s.dur + 1))}
Later(text, k) == [x \in 1..Len(text) |-> <<text[x][1] + k, text[x][2]>>]

\* ---- the debouncer: a change counts from its n-th tick on ----
Init0(d) == /\ dec = Fresh(d) /\ deb = [n |-> 1, last |-> FALSE, cnt |-> 0] /\ dit = d /\ act = [in |-> [op |-> "init"], out |-> <<>>]
Out(in, o) == act' = [in |-> in, out |-> o]
Do(in) ==
  CASE in.op = "run" ->
         LET before == IF in.key = deb.last THEN deb.cnt ELSE 0      \* equal ticks already seen
             wait == IF deb.n < 2 \/ in.key = dec.key THEN 0
                     ELSE LET w == deb.n - 1 - before IN IF w < 0 THEN 0 ELSE w    \* ticks until the change counts
             w == IF wait > in.n THEN in.n ELSE wait
         IN /\ deb' = [deb EXCEPT !.last = in.key, !.cnt = before + in.n]
            /\ \E r1 \in Run(dec, dec.key, w) : \E r2 \in Run(r1[1], in.key, in.n - w) :
                 dec' = r2[1] /\ Out(in, r1[2] \o Later(r2[2], w))
            /\ dit' = dit
    [] in.op = "restart" -> \* from scratch; the settings stay
         /\ dec' = Fresh(dit) /\ deb' = [deb EXCEPT !.last = FALSE, !.cnt = 0] /\ dit' = dit /\ Out(in, <<>>)
    [] in.op = "debounce" -> \* only right after a reset here
         /\ deb' = [deb EXCEPT !.n = in.n] /\ UNCHANGED <<dec, dit>> /\ Out(in, <<>>)
=============================================================================
