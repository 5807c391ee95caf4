---- MODULE MC_KiwiFeed ----
EXTENDS KiwiFeed, TLC, Json
MCInit == Init0
B(k, l) == [n |-> k, level |-> l]
Inputs == {[op |-> "rate"], [op |-> "hangup"], [op |-> "close"]}
          \cup {[op |-> "sound", blocks |-> b, more |-> m] : b \in {<<>>, <<B(1, 1)>>, <<B(49, 1), B(1, 2)>>, <<B(50, 2)>>}, m \in {0, 1, 511}}
Asked(in) == in.op = "sound" => /\ (in.blocks = <<>> => in.more # 0)
                                 /\ (in.blocks = <<B(1, 1)>> => n % 50 \in {0, 49})
MCNext == \E in \in Inputs : Asked(in) /\ Do(in)
View == <<started, over, n, sum>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- C25 ----
Whole == [][act'.in.op = "sound" /\ act'.in.more # 0 => UNCHANGED <<n, sum>>]_vars
====
