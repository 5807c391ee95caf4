-------------------------------- MODULE Scope ---------------------------------
(* The scope server hands each shown frame to all streams that are open. A       *)
(* stream has room for Cap unread frames; if there is none left, it is ended.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Streams, Cap, Numbers      \* frames are numbered modulo Numbers here
VARIABLES phase,    \* "off", "on" or "stopped"
          next,     \* the number of the next frame
          str,      \* per stream: [st: "none"/"open"/"ended", buf: unread frames]
          act
vars == <<phase, next, str, act>>
NoStream == [st |-> "none", buf |-> <<>>]
Init0 == phase = "off" /\ next = 0 /\ str = [x \in Streams |-> NoStream] /\ act = [in |-> [op |-> "init"], out |-> "ok"]
Out(in, o) == act' = [in |-> in, out |-> o]
Ended(s) == [s EXCEPT !.st = "ended"]
Shown(s) == IF s.st # "open" THEN s ELSE IF Len(s.buf) < Cap THEN [s EXCEPT !.buf = Append(@, next)] ELSE Ended(s)
Unused(s) == s.st = "none" \/ (s.st = "ended" /\ s.buf = <<>>)
Do(in) ==
  CASE in.op = "start" -> phase \in {"off", "stopped"} /\ phase' = "on" /\ Out(in, "ok") /\ UNCHANGED <<next, str>>
    [] in.op = "show" -> \* never blocks
         /\ next' = (next + 1) % Numbers
         /\ str' = IF phase = "on" THEN [x \in Streams |-> Shown(str[x])] ELSE str
         /\ Out(in, "ok") /\ UNCHANGED phase
    [] in.op = "open" -> \* a stream that is opened after the stop has ended
         /\ phase # "off" /\ Unused(str[in.s])
         /\ str' = [str EXCEPT ![in.s] = [st |-> IF phase = "on" THEN "open" ELSE "ended", buf |-> <<>>]]
         /\ Out(in, "ok") /\ UNCHANGED <<phase, next>>
    [] in.op = "read" ->
         /\ str[in.s].st # "none"
         /\ LET s == str[in.s] IN
              IF s.buf # <<>> THEN str' = [str EXCEPT ![in.s].buf = Tail(@)] /\ Out(in, Head(s.buf))
              ELSE str' = str /\ Out(in, IF s.st = "open" THEN "nothing" ELSE "ended")
         /\ UNCHANGED <<phase, next>>
    [] in.op = "stop" ->
         /\ phase' = IF phase = "on" THEN "stopped" ELSE phase
         /\ str' = IF phase = "on" THEN [x \in Streams |-> IF str[x].st = "open" THEN Ended(str[x]) ELSE str[x]] ELSE str
         /\ Out(in, "ok") /\ UNCHANGED next
=============================================================================
