----------------------------- MODULE PeaksTable -----------------------------
(* The table of detected signals (rx.PeaksTable): one slot per frequency bin. *)
(* A signal covers the bins from..to and is new, active (being listened to)   *)
(* or inactive (released).  `since` is when it was put into the table.        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES n, bins, now, act
pvars == <<n, bins, now>>
vars == <<n, bins, now, act>>

Timeout == 120000   \* milliseconds
None == [from |-> -1, to |-> -1, v |-> 0, st |-> "none", since |-> 0]
Bins(k) == 1..k     \* bin b of the code is slot b + 1
Slots(f, t) == {s \in 1..n : s - 1 >= f /\ s - 1 <= t}

Init0(size) == /\ n = size /\ bins = [s \in 1..size |-> None] /\ now = 0
               /\ act = [in |-> [op |-> "init"], out |-> <<>>]

Table(b) == [s \in DOMAIN b |-> <<b[s].from, b[s].to, b[s].v>>]
Found(st) == {bins[s] : s \in {x \in 1..n : bins[x].st = st}}

\* all bins of the signals that overlap f..t are freed, then the new signal is entered
Entered(f, t, v) ==
  LET over == {bins[s] : s \in {x \in Slots(f, t) : bins[x] # None}}
      freed == UNION {Slots(p.from, p.to) : p \in over}
      p == [from |-> f, to |-> t, v |-> v, st |-> "new", since |-> now]
  IN [s \in 1..n |-> IF s \in Slots(f, t) THEN p ELSE IF s \in freed THEN None ELSE bins[s]]

Put(f, t, v) ==
  bins' = IF \E s \in Slots(f, t) : bins[s].st \in {"active", "inactive"} THEN bins ELSE Entered(f, t, v)
ForcePut(f, t, v) == bins' = Entered(f, t, v)

SetState(b, from, to) ==
  LET p == bins[b + 1] IN
  bins' = IF p.st \in from THEN [s \in 1..n |-> IF bins[s] = p THEN [p EXCEPT !.st = to] ELSE bins[s]] ELSE bins
Activate(b) == SetState(b, {"new", "inactive"}, "active")
Deactivate(b) == SetState(b, {"active"}, "inactive")

Expired(p) == p # None /\ p.st # "active" /\ now - p.since >= Timeout
Cleanup == bins' = [s \in 1..n |-> IF Expired(bins[s]) THEN None ELSE bins[s]]

Stay == n' = n
Out(in) == act' = [in |-> in, out |-> Table(bins')]

Do(in) ==
  /\ Stay
  /\ CASE in.op = "put" -> Put(in.f, in.t, in.v) /\ now' = now /\ Out(in)
       [] in.op = "force" -> ForcePut(in.f, in.t, in.v) /\ now' = now /\ Out(in)
       [] in.op = "activate" -> Activate(in.b) /\ now' = now /\ Out(in)
       [] in.op = "deactivate" -> Deactivate(in.b) /\ now' = now /\ Out(in)
       [] in.op = "cleanup" -> Cleanup /\ now' = now /\ Out(in)
       [] in.op = "tick" -> now' = now + in.ms /\ bins' = bins /\ Out(in)
       [] in.op = "clear" -> bins' = [s \in 1..n |-> None] /\ now' = now /\ Out(in)
       [] in.op = "find" ->     \* any new signal may be offered, and one is offered if there is any
            /\ UNCHANGED <<bins, now>>
            /\ IF Found("new") = {} THEN act' = [in |-> in, out |-> <<-1, -1, 0>>]
               ELSE \E p \in Found("new") : act' = [in |-> in, out |-> <<p.from, p.to, p.v>>]
=============================================================================
