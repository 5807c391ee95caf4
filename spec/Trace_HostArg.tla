---- MODULE Trace_HostArg ----
EXTENDS HostArg, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.i.op = "reset" THEN act' = act ELSE Do(e.i) /\ act'.out = e.o
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
