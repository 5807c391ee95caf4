------------------------------ MODULE Debounce ------------------------------
(* The debouncer for on/off signals (dsp.BoolDebouncer).  The state is the     *)
(* set threshold, the effective state and the length of the current run of    *)
(* equal raw observations.                                                     *)
EXTENDS Integers, Sequences

VARIABLES thr, eff, last, cnt, act
dvars == <<thr, eff, last, cnt>>
vars == <<thr, eff, last, cnt, act>>

InitWith(t) == /\ thr = t /\ eff = FALSE /\ last = FALSE /\ cnt = 0
               /\ act = [in |-> [op |-> "init"], out |-> FALSE]

\* pure step: the new <<effective state, last raw state, run length, output>>
Debounced(th, e, la, c, raw) ==
  IF th < 2 THEN <<e, la, c, raw>>
  ELSE LET c1 == IF raw # la THEN 1 ELSE c + 1
           e1 == IF c1 >= th THEN raw ELSE e
       IN <<e1, raw, c1, e1>>

Observe(raw) ==
  LET r == Debounced(thr, eff, last, cnt, raw) IN
  /\ eff' = r[1] /\ last' = r[2] /\ cnt' = r[3]
  /\ thr' = thr
  /\ act' = [in |-> [op |-> "raw", v |-> raw], out |-> r[4]]

SetThreshold(t) ==
  /\ thr' = t
  /\ UNCHANGED <<eff, last, cnt>>
  /\ act' = [in |-> [op |-> "set", t |-> t], out |-> FALSE]

Do(in) == CASE in.op = "raw" -> Observe(in.v)
            [] in.op = "set" -> SetThreshold(in.t)
=============================================================================
