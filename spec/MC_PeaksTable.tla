---- MODULE MC_PeaksTable ----
EXTENDS PeaksTable, TLC, Json
CONSTANTS Size, Unit, MaxWidth
MCInit == Init0(Size)
Ranges == {<<f, t>> \in (0..Size-1) \X (0..Size-1) : f <= t /\ t - f < MaxWidth}
Occupied == {b \in 0..Size-1 : bins[b + 1] # None}
Inputs == {[op |-> o, f |-> r[1], t |-> r[2], v |-> 0] : o \in {"put", "force"}, r \in Ranges}
     \cup {[op |-> o, b |-> b] : o \in {"activate", "deactivate"}, b \in Occupied}
     \cup {[op |-> "cleanup"], [op |-> "find"], [op |-> "clear"], [op |-> "tick", ms |-> Unit]}
MCNext == \E in \in Inputs : Do(in)
MaxAge == (Timeout \div Unit)
Age(p) == IF p = None THEN 0 ELSE LET a == (now - p.since) \div Unit IN IF a > MaxAge THEN MaxAge ELSE a
View == [s \in 1..n |-> <<bins[s].from, bins[s].to, bins[s].st, Age(bins[s])>>]
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- the property ----
Consistent ==   \* each signal covers exactly its bins
  \A s \in 1..n : bins[s] # None =>
     /\ bins[s].from <= s - 1 /\ s - 1 <= bins[s].to
     /\ \A x \in Slots(bins[s].from, bins[s].to) : bins[x] = bins[s]
Normal == act'.in.op \notin {"force", "clear"}   \* force is for decode mode, where the user selects the signal
ActiveStays ==  \* a signal that is being listened to is never dropped, except by a release
  [][Normal => \A s \in 1..n : (bins[s].st = "active") =>
       (bins'[s].from = bins[s].from /\ bins'[s].to = bins[s].to /\ bins'[s].st \in {"active", "inactive"})]_vars
NoRetry ==      \* a released signal becomes available again only by expiring, at least Timeout after it was put
  [][Normal => \A s \in 1..n : (bins[s].st = "inactive" /\ bins'[s].st # "inactive") =>
       \/ (act'.in.op = "activate" /\ bins'[s].st = "active")
       \/ (act'.in.op = "cleanup" /\ bins'[s] = None /\ now - bins[s].since >= Timeout)]_vars
OfferOnlyNew == [][act'.in.op = "find" =>
       IF act'.out = <<-1, -1, 0>> THEN \A s \in 1..n : bins[s].st # "new"
       ELSE \E s \in 1..n : bins[s].st = "new" /\ act'.out = <<bins[s].from, bins[s].to, bins[s].v>>]_vars
Untaken ==      \* after a clean-up nothing old is left, except what is being listened to
  [][act'.in.op = "cleanup" => \A s \in 1..n : bins'[s].st \in {"new", "inactive"} => now - bins'[s].since < Timeout]_vars
NewestWins ==   \* a detection that overlaps only new signals replaces them
  [][(act'.in.op = "put" /\ \A s \in Slots(act'.in.f, act'.in.t) : bins[s].st \in {"none", "new"}) =>
        \A s \in Slots(act'.in.f, act'.in.t) : bins'[s].st = "new" /\ bins'[s].since = now
                                               /\ bins'[s].from = act'.in.f]_vars
====
