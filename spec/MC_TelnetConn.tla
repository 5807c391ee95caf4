---- MODULE MC_TelnetConn ----
EXTENDS TelnetConn, TLC, Json
CONSTANTS MaxPart, MaxPend
Chunks == {<<97>>, <<10>>, <<13>>, <<97, 10>>, <<10, 97>>, <<195>>, <<169, 10>>, <<98, 13, 10>>}
Lines == {<<120, 10>>, <<121, 121, 10>>}
Ops(s) == [op : s, t : {<<>>}]
Inputs ==
  CASE st = "none" -> [op : {"new"}, t : {<<104, 105, 10>>}]
    [] st = "up" -> (IF eof \/ Len(part) > MaxPart THEN {} ELSE [op : {"in"}, t : Chunks]) \cup [op : {"say", "closewhilesaying"}, t : Lines]
                    \cup Ops({"stick", "break", "close", "closetwice"}) \cup (IF eof THEN {} ELSE Ops({"eof"}))
    [] st = "stuck" -> (IF eof \/ Len(part) > MaxPart \/ Len(ans) >= MaxPend THEN {} ELSE [op : {"in"}, t : Chunks])
                       \cup (IF Len(ann) >= MaxPend THEN {} ELSE [op : {"say"}, t : Lines])
                       \cup [op : {"closewhilesaying", "flood"}, t : Lines] \cup Ops({"unstick", "break", "close", "closetwice"})
    [] st = "broken" -> [op : {"say"}, t : Lines] \cup Ops({"close"})
    [] st = "closed" -> [op : {"say"}, t : {<<120, 10>>}] \cup Ops({"close"})
MCNext == \E in \in Inputs : Do(in)
View == <<st, eof, known, part, ann, ans>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- properties ----
\* what is written while the client reads is complete: no part of an answer or announcement stays behind
NothingBehind == st = "up" => ann = <<>> /\ ans = <<>>
\* a closed connection stays closed, and nothing is written anymore
ClosedForGood == [][st = "closed" => st' = "closed" /\ act'.out.w = <<>>]_vars
\* the dialogue depends on the bytes only, not on the way they are split
SplitFree == \A c \in Chunks : \A k \in 0..Len(c) :
               Feed(Feed(<<known, part, <<>>>>, SubSeq(c, 1, k)), SubSeq(c, k + 1, Len(c))) = Feed(<<known, part, <<>>>>, c)
\* a client that reads and does not hang up is never dropped on its own
KeptWhileUp == [][(st = "up" /\ act'.in.op \in {"in", "say", "stick"}) => st' # "closed"]_vars
====
