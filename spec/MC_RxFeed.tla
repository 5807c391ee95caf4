---- MODULE MC_RxFeed ----
EXTENDS RxFeed, TLC, Json
Give(rate, size, v, n) == [op |-> "give", rate |-> rate, size |-> size, v |-> v, n |-> n]
Inputs == {[op |-> "start", size |-> z] : z \in {1, 2}} \cup {[op |-> o] : o \in {"stop", "stall", "resume"}}
          \cup {Give(z, z, v, n) : z \in {1, 2}, v \in {0, 1}, n \in {1, 50, 99, 120}}
          \* wrong rates and sizes: 3 is a block without its last sample, 4 is an empty one
          \cup {Give(1, 2, 0, 50), Give(2, 1, 0, 50), Give(1, 3, 0, 50), Give(1, 4, 0, 50)}
Asked(in) == /\ in.op = "stop" => ~stuck
             /\ in.op = "give" => Len(queue) <= 2
             /\ in.op = "give" /\ in.n = 1 => Total(queue) \in {0, 50, 99, 100}
             /\ in.op = "stall" => ~stalled
             /\ in.op = "resume" => stalled
MCNext == \E in \in Inputs : Asked(in) /\ Do(in)
View == <<run, stalled, stuck, queue>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
Bounded == Total(queue) <= Room
NoneLeft == ~stuck => queue = <<>>
Idle == run = 0 => ~stuck
\* what waited comes out once, in its order
Ordered == [][act'.in.op = "resume" => act'.out = queue]_vars
====
