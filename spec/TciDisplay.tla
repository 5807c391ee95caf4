------------------------------- MODULE TciDisplay -------------------------------
(* The TCI process between the receiver's reports and the TCI device with its     *)
(* display, and the spotter: listeners have markers, spotted callsigns have        *)
(* markers, and every spotted callsign goes to the spotter.                        *)
EXTENDS Integers, Sequences
CONSTANTS Listeners, Callsigns
VARIABLES up,      \* connected to a device that is ready
          stuck,   \* the device does not take the commands: nothing is said about its display until there is a new connection
          over,    \* the process was closed
          show,    \* what is shown: [l |-> BOOLEAN, s |-> BOOLEAN]
          on,      \* the frequency of each active listener, 0: not active
          ml, ms,  \* the frequencies of the markers of the listeners and callsigns on the device's display, 0: no marker
          act
vars == <<up, stuck, over, show, on, ml, ms, act>>
None(S) == [x \in S |-> 0]
Init0 == /\ up = FALSE /\ stuck = FALSE /\ over = FALSE /\ show = [l |-> FALSE, s |-> FALSE]
         /\ on = None(Listeners) /\ ml = None(Listeners) /\ ms = None(Callsigns)
         /\ act = [in |-> [op |-> "init"], out |-> <<>>]
\* ---- the effect of a report on [on, ml, ms, sp], sp: what goes to the spotter ----
Now == [on |-> on, ml |-> ml, ms |-> ms, sp |-> <<>>]
Effect(s, r) ==
  CASE r.k = "on" -> [s EXCEPT !.on[r.x] = r.f, !.ml[r.x] = IF show.l /\ up /\ ~stuck THEN r.f ELSE @]
    [] r.k = "off" -> [s EXCEPT !.on[r.x] = 0, !.ml[r.x] = 0]
    [] r.k = "dec" -> s
    [] r.k = "spot" -> [s EXCEPT !.ms[r.x] = IF show.s /\ up /\ ~stuck THEN r.f ELSE @, !.sp = Append(@, <<r.x, r.f>>)]
    [] r.k = "gone" -> [s EXCEPT !.ms[r.x] = 0]
RECURSIVE Effects(_, _)
Effects(s, rs) == IF rs = <<>> THEN s ELSE Effects(Effect(s, Head(rs)), Tail(rs))
\* listeners are activated when they are not active, and the other way around
RECURSIVE Sensible(_, _)
Sensible(o, rs) == IF rs = <<>> THEN TRUE
                   ELSE LET r == Head(rs) IN
                        IF (r.k = "on" /\ o[r.x] # 0) \/ (r.k = "off" /\ o[r.x] = 0) THEN FALSE
                        ELSE Sensible(IF r.k \in {"on", "off"} THEN [o EXCEPT ![r.x] = IF r.k = "on" THEN r.f ELSE 0] ELSE o, Tail(rs))
\* what is seen of the display
View(u, st, l, s) == IF u /\ ~st THEN [l |-> l, s |-> s] ELSE [l |-> <<>>, s |-> <<>>]
Out(in, d, sp, cmds) == act' = [in |-> in, out |-> [l |-> d.l, s |-> d.s, sp |-> sp, c |-> cmds]]
Become(s) == on' = s.on /\ ml' = s.ml /\ ms' = s.ms
\* the display of a device that was just connected is empty
Cleared(s) == [s EXCEPT !.ml = None(Listeners), !.ms = None(Callsigns)]
\* after the end of the process only the markers of the listeners that were not active any more are known to be gone
Left(s) == [l |-> [x \in Listeners |-> IF s.on[x] = 0 THEN s.ml[x] ELSE 0], s |-> <<>>]
Nowhere == [l |-> <<>>, s |-> <<>>]
Do(in) ==
  CASE in.op = "connect" -> \* a device accepts the connection and is ready
         /\ ~up /\ up' = TRUE /\ stuck' = FALSE /\ UNCHANGED <<over, show>> /\ Become(Cleared(Now))
         /\ Out(in, IF over THEN Nowhere ELSE View(TRUE, FALSE, ml', ms'), <<>>, IF over THEN <<>> ELSE <<"iq_samplerate", "iq_start">>)
    [] in.op = "show" -> /\ show' = [l |-> in.l, s |-> in.s] /\ UNCHANGED <<up, stuck, over, on, ml, ms>>
                         /\ Out(in, Nowhere, <<>>, <<>>)
    [] in.op = "report" -> \* reports, one right after the other
         /\ ~over /\ Sensible(on, in.r)
         /\ LET s == Effects(Now, in.r) IN
            /\ Become(s) /\ UNCHANGED <<up, stuck, over, show>> /\ Out(in, View(up, stuck, ml', ms'), s.sp, <<>>)
    [] in.op = "hangup" -> \* the connection is lost right after some reports
         /\ up /\ ~over /\ up' = FALSE /\ stuck' = FALSE /\ Sensible(on, in.r) /\ UNCHANGED <<over, show>>
         /\ LET s == Effects(Now, in.r) IN Become(Cleared(s)) /\ Out(in, Nowhere, s.sp, <<>>)
    [] in.op = "stick" -> \* the device does not take anything any more
         /\ up /\ ~stuck /\ ~over /\ stuck' = TRUE /\ UNCHANGED <<up, over, show, on, ml, ms>> /\ Out(in, Nowhere, <<>>, <<>>)
    [] in.op = "close" -> \* right after some reports; it returns
         /\ Sensible(on, in.r) /\ (over => in.r = <<>>)
         /\ LET s == Effects(Now, in.r) IN
            /\ Become(s) /\ over' = TRUE /\ UNCHANGED <<up, stuck, show>>
            /\ Out(in, IF up /\ ~stuck /\ ~over THEN Left(s) ELSE Nowhere, s.sp, IF up /\ ~stuck /\ ~over THEN <<"iq_stop">> ELSE <<>>)
================================================================================
