---- MODULE Trace_Decoder ----
EXTENDS Decoder, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == Init0(6) /\ l = 1
Reset(e) == /\ dec' = Fresh(e.i.dit) /\ deb' = [n |-> 1, last |-> FALSE, cnt |-> 0] /\ dit' = e.i.dit /\ act' = act
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.i.op = "reset" THEN Reset(e) ELSE Do(e.i) /\ act'.out = e.o
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
