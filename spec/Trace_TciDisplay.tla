---- MODULE Trace_TciDisplay ----
EXTENDS TciDisplay, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == Init0 /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.i.op = "reset"
              THEN /\ up' = FALSE /\ stuck' = FALSE /\ over' = FALSE /\ show' = [l |-> FALSE, s |-> FALSE]
                   /\ on' = None(Listeners) /\ ml' = None(Listeners) /\ ms' = None(Callsigns) /\ act' = act
              ELSE Do(e.i) /\ act'.out = e.o
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
