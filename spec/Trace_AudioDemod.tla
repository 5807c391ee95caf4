---- MODULE Trace_AudioDemod ----
EXTENDS AudioDemod, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == AInit([rate |-> 8000, block |-> 44]) /\ l = 1
Reset(e) == /\ cfg' = [rate |-> e.i.rate, block |-> e.i.block] /\ set' = Defaults /\ ph' = 0 /\ pos' = 0 /\ amp' = 0 /\ closed' = FALSE
            /\ dit' = CeilDiv(12 * e.i.rate, 200 * e.i.block) /\ dec' = Fresh(dit')
            /\ deb' = [n |-> 3, last |-> FALSE, cnt |-> 0] /\ act' = act
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.i.op = "reset" THEN Reset(e) ELSE Do2(e.i) /\ act'.out = e.o
TSpec == TInit /\ [][TNext]_<<allvars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
