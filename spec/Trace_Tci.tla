---- MODULE Trace_Tci ----
EXTENDS Tci, TLC, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == TInit0 /\ i = 1
TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ LET e == Trace[i] IN
              IF e.i.op = "reset"
              THEN /\ run' = FALSE /\ set' = Default /\ table' = <<>> /\ ls' = [x \in 1..Pool |-> Nobody] /\ printing' = 0 /\ act' = act
                   /\ link' = "down" /\ over' = FALSE /\ show' = [l |-> FALSE, s |-> FALSE] /\ stored' = <<>>
                   /\ on' = D!None(1..Pool) /\ ml' = D!None(1..Pool) /\ ms' = D!None(Calls)
              ELSE TDo(e.i) /\ Observed(e.i) = e.o
TSpec == TInit /\ [][TNext]_<<tvars, i>>
\* the outcome of a step says all that matters
TView == <<run, set, table, ls, printing, link, over, show, stored, on, ml, ms, i>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
