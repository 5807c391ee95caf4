---- MODULE Trace_FreqMap ----
EXTENDS FreqMap, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == Init /\ l = 1
Reset(e) == sr' = 0 /\ bs' = 0 /\ center' = 0 /\ act' = act
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.i.op = "reset" THEN Reset(e) ELSE Do(e.i) /\ act'.out = e.o
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
