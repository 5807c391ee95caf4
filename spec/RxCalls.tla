-------------------------------- MODULE RxCalls ---------------------------------
(* What concurrent callers of a receiver and the user of its reports see: every   *)
(* call takes effect at one moment between its begin and its return, except that   *)
(* tuning may also take effect right after its return, before anything else.       *)
EXTENDS Integers, FiniteSets
CONSTANTS Callers, Free
VARIABLES run,      \* the receiver was started
          center,   \* the center frequency
          active,   \* the listeners that were reported active and not yet inactive
          owed,     \* the center frequencies whose tuning returned before its effect (at most one)
          calls     \* caller -> [op, v, st, res]
vars == <<run, center, active, owed, calls>>
Nothing == [op |-> "none", v |-> 0, st |-> "idle", res |-> 0]
Init == run = FALSE /\ center = 0 /\ active = {} /\ owed = {} /\ calls = [k \in Callers |-> Nothing]
Call(k, op, v) == /\ calls[k].st = "idle" /\ calls' = [calls EXCEPT ![k] = [op |-> op, v |-> v, st |-> "called", res |-> 0]]
                  /\ UNCHANGED <<run, center, active, owed>>
\* the effect of a call. When it stops, and when it is tuned elsewhere, nobody listens any more
Effect(k) ==
  LET c == calls[k] IN
  /\ c.st = "called" /\ (c.op = "iq" \/ (c.op = "start" /\ run) \/ owed = {}) /\ UNCHANGED owed
  /\ CASE c.op = "start" -> run' = TRUE /\ UNCHANGED <<center, active>> /\ calls' = [calls EXCEPT ![k].st = "done"]
       [] c.op = "stop" -> active = {} /\ run' = FALSE /\ UNCHANGED <<center, active>> /\ calls' = [calls EXCEPT ![k].st = "done"]
       [] c.op = "center" -> (run /\ c.v # center => active = {}) /\ center' = c.v /\ UNCHANGED <<run, active>> /\ calls' = [calls EXCEPT ![k].st = "done"]
       [] c.op = "get" -> UNCHANGED <<run, center, active>> /\ calls' = [calls EXCEPT ![k].st = "done", ![k].res = center]
       [] OTHER -> UNCHANGED <<run, center, active>> /\ calls' = [calls EXCEPT ![k].st = "done"]
Return(k) == /\ calls' = [calls EXCEPT ![k] = Nothing] /\ UNCHANGED <<run, center, active>>
             /\ \/ calls[k].st = "done" /\ UNCHANGED owed
                \/ calls[k].st = "called" /\ calls[k].op = "center" /\ owed = {} /\ owed' = {calls[k].v}
Tuned == /\ \E v \in owed : (run /\ v # center => active = {}) /\ center' = v
         /\ owed' = {} /\ UNCHANGED <<run, active, calls>>
On(x, c) == run /\ owed = {} /\ x \notin active /\ c = center /\ active' = active \cup {x} /\ UNCHANGED <<run, center, owed, calls>>
Off(x) == run /\ x \in active /\ active' = active \ {x} /\ UNCHANGED <<run, center, owed, calls>>
Heard(x) == run /\ x \in active /\ UNCHANGED vars
CONSTANTS Ops, Centers
Next == \/ \E k \in Callers : (\E op \in Ops, v \in Centers : Call(k, op, v)) \/ Effect(k) \/ Return(k)
        \/ Tuned
        \/ \E x \in Free : (\E c \in Centers : On(x, c)) \/ Off(x) \/ Heard(x)
Spec == Init /\ [][Next]_vars
================================================================================
