---- MODULE Trace_Receiver ----
EXTENDS Receiver, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == Init0 /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.i.op = "reset"
              THEN run' = FALSE /\ set' = Default /\ table' = <<>> /\ ls' = [x \in 1..Pool |-> Nobody] /\ printing' = 0 /\ act' = act
              ELSE Do(e.i) /\ act'.out = e.o
TSpec == TInit /\ [][TNext]_<<vars, l>>
\* the outcome of a step says all that matters
TView == <<run, set, table, ls, printing, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
