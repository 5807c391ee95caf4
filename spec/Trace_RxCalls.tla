---- MODULE Trace_RxCalls ----
(* Begins and returns of concurrent calls, and reports, as they were recorded. The effects *)
(* of the calls were not: each line may be preceded by the effects of calls that are under way. *)
EXTENDS RxCalls, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == Init /\ l = 1
\* the states after the effects of some calls, as records
Now == [run |-> run, center |-> center, owed |-> owed, calls |-> calls]
After(s, k) == \* if the call can have its effect now
  LET c == s.calls[k] IN
  IF c.st # "called" \/ (c.op # "iq" /\ ~(c.op = "start" /\ s.run) /\ s.owed # {}) THEN {}
  ELSE LET done == [s EXCEPT !.calls[k].st = "done"] IN
       CASE c.op = "start" -> {[done EXCEPT !.run = TRUE]}
         [] c.op = "stop" -> IF active = {} THEN {[done EXCEPT !.run = FALSE]} ELSE {}
         [] c.op = "center" -> IF s.run /\ c.v # s.center /\ active # {} THEN {} ELSE {[done EXCEPT !.center = c.v]}
         [] c.op = "get" -> {[done EXCEPT !.calls[k].res = s.center]}
         [] OTHER -> {done}
AfterTuned(s) == {[s EXCEPT !.center = v, !.owed = {}] : v \in {w \in s.owed : s.run /\ w # s.center => active = {}}}
RECURSIVE Effects(_, _)
Effects(S, n) == IF n = 0 THEN S
                 ELSE LET T == UNION {AfterTuned(s) \cup UNION {After(s, k) : k \in Callers} : s \in S} \ S
                      IN IF T = {} THEN S ELSE S \cup Effects(T, n - 1)
Line(e, s, o) ==
  CASE e.op = "call" -> /\ calls' = [s.calls EXCEPT ![e.k] = [op |-> e.c, v |-> e.v, st |-> "called", res |-> 0]]
                        /\ s.calls[e.k].st = "idle" /\ run' = s.run /\ center' = s.center /\ owed' = s.owed /\ UNCHANGED active
    [] e.op = "ret" -> /\ calls' = [s.calls EXCEPT ![e.k] = Nothing] /\ run' = s.run /\ center' = s.center /\ UNCHANGED active
                       /\ \/ s.calls[e.k].st = "done" /\ owed' = s.owed /\ s.calls[e.k].res = o
                          \/ s.calls[e.k].st = "called" /\ s.calls[e.k].op = "center" /\ s.owed = {} /\ owed' = {s.calls[e.k].v}
    [] e.op = "on" -> /\ s.run /\ s.owed = {} /\ e.k \notin active /\ e.v = s.center
                      /\ active' = active \cup {e.k} /\ run' = s.run /\ center' = s.center /\ owed' = s.owed /\ calls' = s.calls
    [] e.op = "off" -> /\ s.run /\ e.k \in active /\ active' = active \ {e.k}
                       /\ run' = s.run /\ center' = s.center /\ owed' = s.owed /\ calls' = s.calls
    [] e.op = "dec" -> /\ s.run /\ e.k \in active /\ UNCHANGED active
                       /\ run' = s.run /\ center' = s.center /\ owed' = s.owed /\ calls' = s.calls
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l].i IN
              IF e.op = "reset" THEN run' = FALSE /\ center' = 0 /\ active' = {} /\ owed' = {} /\ calls' = [k \in Callers |-> Nothing]
              ELSE \E s \in Effects({Now}, 12) : Line(e, s, Trace[l].o)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
