---- MODULE Trace_TextProcessor ----
EXTENDS TextProcessor, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
NoData == [dx |-> FALSE, pre |-> <<>>, scp |-> <<>>]
TInit == Init0(NoData) /\ l = 1
Reset(e) == Fresh /\ data' = NoData /\ held' = FALSE /\ queue' = <<>> /\ act' = act
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.i.op = "reset" THEN Reset(e) ELSE Do(e.i) /\ act'.out = e.o
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
