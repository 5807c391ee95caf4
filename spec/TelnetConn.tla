------------------------------ MODULE TelnetConn ------------------------------
(* One connection of the telnet cluster (telnet.Connection): login dialogue,   *)
(* announcements, clients that stop reading or vanish, and closing.            *)
(* Texts are sequences of bytes.                                               *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES st,      \* "none", "up", "stuck" (client does not read), "broken" (client vanished), "closed"
          eof,     \* the client closed its sending side
          known,   \* the first line was received
          part,    \* the unfinished line
          ann, ans, \* announcements and answers that were not written yet
          act
vars == <<st, eof, known, part, ann, ans, act>>

Welcome == <<119, 101, 108, 99, 111, 109, 101, 32>>
Prompt == <<69, 110, 116, 101, 114, 32, 121, 111, 117, 114, 32, 99, 97, 108, 108, 115, 105, 103, 110, 58, 32>>
NL == 10
CR == 13

RECURSIVE Feed(_, _)       \* the state of the dialogue after some bytes: <<known, unfinished line, answers>>
Feed(d, b) ==
  IF b = <<>> THEN d
  ELSE Feed(IF Head(b) \in {NL, CR}
            THEN <<TRUE, <<>>, Append(d[3], IF d[1] THEN <<NL>> ELSE Welcome \o d[2] \o <<NL>>)>>
            ELSE <<d[1], Append(d[2], Head(b)), d[3]>>, Tail(b))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE Merge(_, _)      \* all interleavings of two sequences of texts, none of them torn apart
Merge(a, b) ==
  IF a = <<>> THEN {Flat(b)} ELSE IF b = <<>> THEN {Flat(a)}
  ELSE {Head(a) \o r : r \in Merge(Tail(a), b)} \cup {Head(b) \o r : r \in Merge(a, Tail(b))}

\* r: result of the call, w: what was written to the client, x: whether the connection is closed
Out(in, r, w, x) == act' = [in |-> in, out |-> [r |-> r, w |-> w, x |-> x]]
Gone == st' = "closed" /\ ann' = <<>> /\ ans' = <<>> /\ part' = <<>>
Keep == UNCHANGED <<st, ann, ans, part>>

Init == /\ st = "none" /\ eof = FALSE /\ known = FALSE /\ part = <<>> /\ ann = <<>> /\ ans = <<>>
        /\ act = [in |-> [op |-> "init"], out |-> [r |-> "ok", w |-> <<>>, x |-> 0]]

Do(in) ==
  CASE in.op = "new" ->        \* in.t: the greeting
         /\ st' = "up" /\ UNCHANGED <<eof, known, part, ann, ans>> /\ Out(in, "ok", in.t \o Prompt, 0)
    [] in.op = "in" ->         \* in.t: bytes that arrive together
         /\ UNCHANGED eof
         /\ (CASE st = "up" -> LET d == Feed(<<known, part, <<>>>>, in.t) IN
                                /\ known' = d[1] /\ part' = d[2] /\ UNCHANGED <<st, ann, ans>> /\ Out(in, "ok", Flat(d[3]), 0)
              [] st = "stuck" -> LET d == Feed(<<known, part, ans>>, in.t) IN
                                /\ known' = d[1] /\ part' = d[2] /\ ans' = d[3] /\ UNCHANGED <<st, ann>> /\ Out(in, "ok", <<>>, 0)
              [] OTHER -> UNCHANGED known /\ Keep /\ Out(in, "ok", <<>>, 1))
    [] in.op = "say" ->        \* an announcement
         /\ UNCHANGED <<eof, known>>
         /\ (CASE st = "up" -> Keep /\ Out(in, "ok", in.t, 0)
              [] st = "stuck" -> ((ann' = Append(ann, in.t) /\ UNCHANGED <<st, ans, part>> /\ Out(in, "ok", <<>>, 0))
                                  \/ (Gone /\ Out(in, "err", <<>>, 1)))       \* the time limit was exceeded
              [] st = "broken" -> (Gone /\ \E r \in {"ok", "err"} : Out(in, r, <<>>, 1))
              [] st = "closed" -> Keep /\ Out(in, "err", <<>>, 1))
    [] in.op = "flood" ->      \* announcements until one fails
         /\ UNCHANGED <<eof, known>> /\ Gone /\ Out(in, "err", <<>>, 1)
    [] in.op = "stick" -> /\ st' = "stuck" /\ UNCHANGED <<eof, known, part, ann, ans>> /\ Out(in, "ok", <<>>, 0)
    [] in.op = "unstick" ->
         /\ st' = "up" /\ ann' = <<>> /\ ans' = <<>> /\ UNCHANGED <<eof, known, part>>
         /\ \E w \in Merge(ann, ans) : Out(in, "ok", w, 0)
    [] in.op = "eof" ->        \* the client may still read
         /\ eof' = TRUE /\ UNCHANGED known
         /\ \/ Keep /\ Out(in, "ok", <<>>, 0)
            \/ Gone /\ Out(in, "ok", <<>>, 1)
    [] in.op = "break" ->      \* reading and writing fails from now on
         /\ UNCHANGED <<eof, known>>
         /\ \/ st' = "broken" /\ ann' = <<>> /\ ans' = <<>> /\ part' = <<>> /\ Out(in, "ok", <<>>, 0)
            \/ Gone /\ Out(in, "ok", <<>>, 1)
    [] in.op \in {"close", "closetwice"} ->
         /\ UNCHANGED <<eof, known>> /\ Gone /\ Out(in, "ok", <<>>, 1)
    [] in.op = "closewhilesaying" ->
         /\ UNCHANGED <<eof, known>> /\ Gone
         /\ \E r \in {"ok", "err"}, w \in (IF st = "up" THEN {<<>>, in.t} ELSE {<<>>}) : Out(in, r, w, 1)
=============================================================================
