---- MODULE MC_Telnet ----
EXTENDS Telnet, TLC
CONSTANTS Times, Freqs, MaxLines
VARIABLE sent    \* history: the announced lines with their time in seconds, and per client what it got
hvars == <<vars, sent>>
Cs == {1, 2}
Inputs ==
  [op : {"silence"}, p : {60}] \cup [op : {"dial"}, c : Cs \ Clients] \cup [op : {"connect"}, c : {x \in Clients : cl[x].st = "dial"}]
  \cup (IF running THEN {} ELSE {[op |-> "start", de |-> "me"]})
  \cup [op : {"gone"}, c : Clients] \cup [op : {"recv"}, c : {x \in Clients : cl[x].st = "up"}] \cup [op : {"type"}, c : {x \in Clients : cl[x].user = "" /\ x = 1 /\ cl[x].st = "up"}, text : {"a"}]
  \cup [op : {"spot"}, call : {"A", "B"}, f : Freqs, msg : {"m"}, t : Times] \cup {[op |-> "stop"]}
MCInit == Init /\ sent = <<>>
MCNext == \E in \in Inputs :
  /\ Do(in)
  /\ sent' = IF in.op = "spot" /\ last' # last THEN Append(sent, [call |-> in.call, f |-> in.f, t |-> in.t, p |-> silence])
             ELSE IF in.op = "silence" THEN [i \in DOMAIN sent |-> [sent[i] EXCEPT !.p = 0]] ELSE sent
Bound == Len(sent) <= MaxLines /\ \A c \in Clients : Len(cl[c].ann) <= 2
View == <<cl, last, silence, recent, running, sent>>
Khz(f) == f \div 1000       \* the test frequencies are a little above a whole kilohertz
\* two announcements of a callsign on the same kilohertz are more than the silence period apart
Silent == \A i, j \in DOMAIN sent : (i < j /\ sent[i].call = sent[j].call /\ Khz(sent[i].f) = Khz(sent[j].f) /\ sent[j].t >= sent[i].t)
            => \/ sent[j].t - sent[i].t > sent[j].p \/ \E k \in i+1..j-1 : sent[k].t > sent[j].t \/ sent[k].t < sent[i].t
\* what clients still have to get are the most recent announcements, in order
InOrder == \A c \in Clients : LET q == cl[c].ann IN
             \A k \in DOMAIN q : LET s == sent[Len(sent) - Len(q) + k] IN q[k].call = s.call /\ q[k].t = HHMM(s.t)
OptBound == \A c \in Clients : cl[c].opt <= Len(cl[c].ann)
====
