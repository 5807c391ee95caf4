-------------------------------- MODULE Telnet --------------------------------
(* The telnet cluster as its users see it: spots that are announced, the lines *)
(* that each connected client still has to get, and the login dialogue.        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT MaxRecent
VARIABLES cl,       \* per client: [st, ann, opt, ans, user] - state, announcements to come and how many of the first
                    \* ones may be missing because the client was not connected yet, answers to come, login state
          last,     \* the time of the last announcement per <<callsign, kilohertz>>
          silence,  \* the silence period in seconds
          recent,   \* the most recent announcements, they may still be on their way when a client connects
          running, de, act
vars == <<cl, last, silence, recent, running, de, act>>

Clients == DOMAIN cl
\* the nearest multiples (two on a tie)
Nearest(f, u) == LET q == f \div u IN {k \in {q, q + 1} : 2 * (IF f > k * u THEN f - k * u ELSE k * u - f) <= u}
Minutes(t) == (t \div 60) % 1440
HHMM(t) == (Minutes(t) \div 60) * 100 + (Minutes(t) % 60)

\* one announced line, and one answer of the dialogue, as records of the same shape
Line(in, f10) == [de |-> de, f |-> f10, call |-> in.call, msg |-> in.msg, t |-> HHMM(in.t)]
Answer(text) == [de |-> "", f |-> 0, call |-> "", msg |-> text, t |-> -1]

Decisions(in, k) ==      \* whether a spot is announced
  IF <<in.call, k>> \notin DOMAIN last THEN {TRUE}
  ELSE LET d == in.t - last[<<in.call, k>>] IN
       IF d < 0 THEN {TRUE, FALSE}       \* the clock went backwards
       ELSE {d > silence}

Last(q, k) == SubSeq(q, IF Len(q) > k THEN Len(q) - k + 1 ELSE 1, Len(q))
Init == /\ recent = <<>> /\ cl = <<>> /\ last = <<>> /\ silence = 240 /\ running = FALSE /\ de = ""
        /\ act = [in |-> [op |-> "init"], out |-> "ok"]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Out(in, o) == act' = [in |-> in, out |-> o]
\* the answer to the line of a client: a welcome for the first one, an empty line for each other one
Answered(c, text) == IF c.user = "" THEN Append(c.ans, Answer("welcome " \o text)) ELSE Append(c.ans, Answer(""))

\* spots that are made at the same time: in any order, each of them as often as one likes
After(x, in) ==          \* the frequency is a whole number of kilohertz
  LET key == <<in.call, in.f \div 1000>>
      line == Line(in, in.f \div 100)
  IN IF key \in DOMAIN x.last /\ in.t - x.last[key] <= silence THEN x
     ELSE [cl |-> [c \in Clients |-> [x.cl[c] EXCEPT !.ann = Append(@, line)]],
           last |-> Put(x.last, key, in.t), recent |-> Last(Append(x.recent, line), MaxRecent)]
Volley(ss) == \E i \in {1, 2} :
  LET x == After(After([cl |-> cl, last |-> last, recent |-> recent], ss[i]), ss[3 - i])
  IN cl' = x.cl /\ last' = x.last /\ recent' = x.recent

Do(in) ==
  CASE in.op = "start" -> /\ running' = TRUE /\ de' = in.de /\ Out(in, "ok") /\ UNCHANGED <<recent, cl, last, silence>>
    [] in.op = "silence" -> /\ silence' = in.p /\ Out(in, "ok") /\ UNCHANGED <<recent, cl, last, running, de>>
    [] in.op = "dial" -> \* the client is about to connect
                         /\ running
                         /\ cl' = Put(cl, in.c, [st |-> "dial", ann |-> recent, opt |-> Len(recent), ans |-> <<>>, user |-> ""])
                         /\ Out(in, "ok") /\ UNCHANGED <<recent, last, silence, running, de>>
    [] in.op = "connect" -> \* the client got the greeting
                            /\ running /\ cl[in.c].st = "dial"
                            /\ cl' = [cl EXCEPT ![in.c].st = "up", ![in.c].opt = Len(cl[in.c].ann)]
                            /\ Out(in, "greeting and prompt") /\ UNCHANGED <<recent, last, silence, running, de>>
    [] in.op = "gone" -> /\ cl' = [x \in Clients \ {in.c} |-> cl[x]] /\ Out(in, "ok") /\ UNCHANGED <<recent, last, silence, running, de>>
    [] in.op = "type" ->     \* a complete line; the text is not empty
                         /\ cl' = [cl EXCEPT ![in.c].ans = Answered(cl[in.c], in.text), ![in.c].user = "known"]
                         /\ Out(in, "ok") /\ UNCHANGED <<recent, last, silence, running, de>>
    [] in.op = "spot" -> /\ running
                         /\ \E k \in Nearest(in.f, 1000), f10 \in Nearest(in.f, 100) :
                            \E a \in Decisions(in, k) :
                              IF a THEN /\ cl' = [c \in Clients |-> [cl[c] EXCEPT !.ann = Append(@, Line(in, f10))]]
                                        /\ last' = Put(last, <<in.call, k>>, in.t)
                                        /\ recent' = Last(Append(recent, Line(in, f10)), MaxRecent)
                                   ELSE UNCHANGED <<cl, last, recent>>
                         /\ Out(in, "ok") /\ UNCHANGED <<silence, running, de>>
    [] in.op = "volley" -> /\ running /\ Volley(in.ss) /\ Out(in, "ok") /\ UNCHANGED <<silence, running, de>>
    [] in.op = "recv" -> \* the next line that a client gets: the first of its announcements or the first of its answers
                         /\ cl[in.c].st = "up"
                         /\ \/ \E j \in 0..cl[in.c].opt :
                                 /\ j < Len(cl[in.c].ann) /\ Out(in, cl[in.c].ann[j + 1])
                                 /\ cl' = [cl EXCEPT ![in.c].ann = SubSeq(@, j + 2, Len(@)), ![in.c].opt = 0]
                            \/ /\ cl[in.c].ans # <<>> /\ Out(in, Head(cl[in.c].ans))
                               /\ cl' = [cl EXCEPT ![in.c].ans = Tail(@)]
                         /\ UNCHANGED <<recent, last, silence, running, de>>
    [] in.op = "drained" -> \* nothing more comes
                         /\ \A c \in Clients : Len(cl[c].ann) <= cl[c].opt /\ cl[c].ans = <<>>
                         /\ Out(in, "ok") /\ UNCHANGED <<recent, cl, last, silence, running, de>>
    [] in.op = "stop" -> \* every client is disconnected, the port is free
                         /\ running' = FALSE /\ cl' = <<>> /\ Out(in, "ok, disconnected, free") /\ UNCHANGED <<recent, last, silence, de>>
    [] in.op = "dropped" -> \* a client that stopped reading finds its connection closed
                         /\ Out(in, "closed") /\ UNCHANGED <<recent, cl, last, silence, running, de>>
    [] in.op = "late" -> \* a spot after the stop: nobody gets it, but the call returns
                         /\ ~running /\ Out(in, "ok") /\ UNCHANGED <<recent, cl, last, silence, running, de>>
=============================================================================
