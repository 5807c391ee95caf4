---------------------------------- MODULE Tci ----------------------------------
(* The TCI process as a whole: what the TCI device says reaches the receiver if     *)
(* it is about the selected TRX and its VFO A, settings are kept for the next       *)
(* connection, what the receiver reports is shown on the device's display, and      *)
(* the spots go to the spotter. The first TRX is TRX 1.                             *)
EXTENDS Receiver
CONSTANT Grid            \* seconds that pass in a wait
VARIABLES link,          \* to the device: "down", "dialled" (it did not say yet that it is ready), "up"
          over,          \* the process was closed
          show,          \* what is shown
          stored,        \* the settings that are applied with each connection
          on, ml, ms     \* see TciDisplay
tvars == <<vars, link, over, show, stored, on, ml, ms>>
D == INSTANCE TciDisplay WITH Listeners <- 1..Pool, Callsigns <- Calls, up <- link = "up", stuck <- FALSE
TInit0 == /\ Init0 /\ link = "down" /\ over = FALSE /\ show = [l |-> FALSE, s |-> FALSE] /\ stored = <<>>
          /\ on = D!None(1..Pool) /\ ml = D!None(1..Pool) /\ ms = D!None(Calls)
\* the display takes part in the reports
Heed(e) == CASE e.k \in {"on", "off"} -> [k |-> e.k, x |-> e.id, f |-> e.f]
             [] OTHER -> [k |-> e.k, x |-> e.c, f |-> e.f]
Seen(evs) == LET s == D!Effects(D!Now, [y \in DOMAIN evs |-> Heed(evs[y])]) IN on' = s.on /\ ml' = s.ml /\ ms' = s.ms
\* what goes to the spotter
Spots(evs) == LET l == SelectSeq(evs, LAMBDA e : e.k = "spot") IN [y \in DOMAIN l |-> <<l[y].c, l[y].f>>]
\* a step of the receiver
Receives(rin) == /\ Do(rin) /\ Seen(act'.out.ev)
Idles(in) == Out(in, Nothing) /\ UNCHANGED <<run, set, table, ls, printing, on, ml, ms>>
Merged(s, t) == [k \in DOMAIN s |-> IF k \in DOMAIN t THEN t[k] ELSE s[k]]
\* the selected TRX
Mine(in) == in.trx = 1
TDo(in) ==
  CASE in.op = "show" -> /\ link = "down" /\ ~run /\ show' = [l |-> in.l, s |-> in.s] /\ Idles(in) /\ UNCHANGED <<link, over, stored>>
    [] in.op = "set" -> \* applied at once, and with each connection
         /\ stored' = With(stored, in.k, in.v) /\ UNCHANGED <<link, over, show>>
         /\ IF link = "down" THEN Idles(in) ELSE Receives(in)
    [] in.op = "wait" -> \* there are no pending texts; signals that were tried long ago are forgotten
         /\ \A x \in Busy : ls[x].tail = ""
         /\ link' = IF in.dial /\ link = "down" THEN "dialled" ELSE link
         /\ ls' = [x \in 1..Pool |-> IF ls[x] = Nobody THEN Nobody ELSE [ls[x] EXCEPT !.at = Aged(@, Grid), !.wr = Aged(@, Grid)]]
         /\ LET t == [b \in DOMAIN table |-> [table[b] EXCEPT !.age = Aged(@, Grid)]] IN
            table' = IF run THEN Without(t, {b \in DOMAIN t : t[b].st # "taken" /\ t[b].age >= Expiry}) ELSE t
         /\ Out(in, Nothing) /\ UNCHANGED <<run, set, printing, over, show, stored, on, ml, ms>>
    [] in.op = "ready" -> \* the device is ready: the receiver runs with the stored settings from now on; the display is empty
         /\ link = "dialled" /\ link' = "up" /\ UNCHANGED <<over, show, stored>>
         /\ IF over THEN Idles(in)
            ELSE /\ run' = TRUE /\ table' = (IF run THEN table ELSE <<>>) /\ set' = Merged(set, stored)
                 /\ IF ~run /\ Mode = "decode" /\ set.vfo # 0 THEN Bind(in, set) ELSE UNCHANGED <<ls, printing>> /\ Out(in, Nothing)
                 /\ LET s == [x \in 1..Pool |-> 0] t == [c \in Calls |-> 0]
                        bound == act'.out.ev # <<>>
                    IN /\ on' = [x \in 1..Pool |-> IF ls'[x] = Nobody THEN 0 ELSE ls'[x].f]
                       /\ ml' = [x \in 1..Pool |-> IF bound /\ show.l THEN on'[x] ELSE 0]
                       /\ ms' = t
    [] in.op = "hangup" -> \* (the TCI client library does not try again when the connection is lost before the device was ready)
                           /\ link = "up" /\ link' = "down" /\ Out(in, Nothing) /\ UNCHANGED <<run, set, table, ls, printing, over, show, stored, on>>
                           /\ ml' = D!None(1..Pool) /\ ms' = D!None(Calls)
    [] in.op = "dds" -> /\ link # "down" /\ UNCHANGED <<link, over, show, stored>>
                        /\ IF Mine(in) THEN Receives([op |-> "set", k |-> "center", v |-> in.c]) ELSE Idles(in)
    [] in.op = "if" -> /\ link # "down" /\ UNCHANGED <<link, over, show, stored>>
                       /\ IF Mine(in) /\ in.vfo = 0 THEN Receives([op |-> "vfo", b |-> in.b]) ELSE Idles(in)
    [] in.op = "iq" -> /\ link # "down" /\ UNCHANGED <<link, over, show, stored>>
                       /\ IF Mine(in) THEN Receives([op |-> "feed", sig |-> in.sig, n |-> in.n]) ELSE Idles(in)
    [] in.op = "close" -> \* right after in.n reports of a spotted callsign; the listeners end with the receiver
         /\ over' = TRUE /\ UNCHANGED <<link, show, stored>>
         /\ IF over THEN Idles(in) ELSE Receives([op |-> "stop"])
\* what is observed, besides of the reports and the text
Extra(n) == [x \in 1..n |-> <<"w1aw", 99>>]
\* the stream is started with the connection and stopped with the end
Commands(in) == CASE in.op = "ready" /\ ~over -> <<"iq_samplerate", "iq_start">>
                  [] in.op = "close" /\ ~over /\ link = "up" -> <<"iq_stop">>
                  [] OTHER -> <<>>
\* (in the state after the step; markers are seen while there is a connection, those of spots until the end)
Observed(in) == [ev |-> act'.out.ev, txt |-> act'.out.txt, c |-> Commands(in),
                 sp |-> (IF in.op = "close" /\ ~over THEN Extra(in.n) ELSE <<>>) \o Spots(act'.out.ev),
                 l |-> IF link' = "up" /\ ~over THEN ml' ELSE <<>>,
                 s |-> IF link' = "up" /\ ~over' THEN ms' ELSE <<>>]
================================================================================
