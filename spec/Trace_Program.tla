---- MODULE Trace_Program ----
EXTENDS Program, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Set(s) == {s[i] : i \in 1..Len(s)}
Same(in, o, e) ==
  CASE in.op = "key" -> /\ o.on = e.r.on /\ o.heard = e.r.heard /\ o.spotted = e.r.spotted /\ o.off = e.r.off /\ o.a = e.a
                        /\ o.l = Set(e.m.l) /\ o.s = {<<x.c, x.b>> : x \in Set(e.m.s)} /\ o.ended = e.ended
    [] in.op = "quiet" -> /\ o.off = Set(e.off) /\ o.l = Set(e.m.l) /\ o.s = {<<x.c, x.b>> : x \in Set(e.m.s)} /\ o.ended = e.ended
    [] OTHER -> o = e
TInit == Init0 /\ l = 1
TNext == /\ l <= Len(Trace) /\ l' = l + 1
         /\ LET e == Trace[l] IN
              IF e.i.op = "reset"
              THEN /\ phase' = "off" /\ conf' = NoConf /\ clients' = 0 /\ total' = <<>> /\ listen' = {} /\ left' = {} /\ told' = {} /\ shown' = {}
                   /\ vfo' = 0 /\ unseen' = FALSE /\ link' = FALSE /\ act' = act
              ELSE Do(e.i) /\ Same(e.i, act'.out, e.o)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
              IF d = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d + 1>>) /\ FALSE
====
