---- MODULE Trace_Debounce ----
EXTENDS Debounce, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == InitWith(0) /\ l = 1
Reset(e) == /\ thr' = e.i.t /\ eff' = FALSE /\ last' = FALSE /\ cnt' = 0 /\ act' = act
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.i.op = "reset" THEN Reset(e) ELSE Do(e.i) /\ act'.out = e.o
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
