---- MODULE MC_Debounce ----
(* Exhaustive model: all raw sequences and all threshold changes over small thresholds. *)
(* `hist` is the run of raw observations since the last threshold change, kept only as  *)
(* far as the invariants look back.                                                     *)
EXTENDS Debounce, TLC, Json
CONSTANT MaxThr
VARIABLE hist, prevEff
MCInit == /\ \E t \in {MaxThr} : InitWith(t)
          /\ hist = <<>> /\ prevEff = FALSE
Inputs == [op : {"raw"}, v : BOOLEAN] \cup [op : {"set"}, t : 0..MaxThr]
Cap(s) == IF Len(s) > MaxThr + 1 THEN SubSeq(s, Len(s) - MaxThr, Len(s)) ELSE s
MCNext == \E in \in Inputs :
            /\ Do(in)
            /\ hist' = IF in.op = "raw" THEN Cap(Append(hist, in.v)) ELSE <<>>
            /\ prevEff' = IF in.op = "raw" THEN act'.out ELSE prevEff
Bound == cnt <= MaxThr + 1
View == <<thr, eff, last, cnt>>
FullView == <<thr, eff, last, cnt, hist, prevEff, act.out, act.in.op>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
LastAll(n, v) == Len(hist) >= n /\ \A k \in Len(hist)-n+1..Len(hist) : hist[k] = v
\* a threshold of 2 or more: the output is a value that was held, or it did not change
HeldOrKept == [][(thr >= 2 /\ act'.in.op = "raw") =>
                    \/ act'.out = eff
                    \/ (hist' # <<>> /\ cnt' >= thr /\ act'.out = act'.in.v)]_<<vars, hist, prevEff>>
\* after thr equal observations the output is this value
Follows == (thr >= 2 /\ act.in.op = "raw") =>
              \A v \in BOOLEAN : LastAll(thr, v) => act.out = v
\* the effective state changes only to a value that filled the whole recent window
NoGlitch == [][(thr >= 2 /\ act'.in.op = "raw" /\ eff' # eff /\ Len(hist) >= thr) =>
                 \A k \in Len(hist) - thr + 2..Len(hist) : hist[k] = eff']_<<vars, hist, prevEff>>
Raw == (thr < 2 /\ act.in.op = "raw") => act.out = act.in.v
====
