------------------------------- MODULE Rolling -------------------------------
(* Rolling statistics (dsp.RollingMean, RollingVariance, RollingHistory): the *)
(* window of the last n values, newest first.                                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind, n, win, act
vars == <<kind, n, win, act>>

Inf == 9000001          \* stands for +infinity
NInf == -9000001        \* stands for -infinity
Big == 16777216         \* a value that absorbs small summands in float32

Zeros(k) == [i \in 1..k |-> 0]
Trunc(a, d) == IF a >= 0 THEN a \div d ELSE -((-a) \div d)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Sq(s) == [i \in DOMAIN s |-> s[i] * s[i]]
Max(s) == CHOOSE v \in {s[i] : i \in DOMAIN s} : \A j \in DOMAIN s : v >= s[j]
Min(s) == CHOOSE v \in {s[i] : i \in DOMAIN s} : \A j \in DOMAIN s : v <= s[j]
Has(s, v) == \E i \in DOMAIN s : s[i] = v
Newest(k) == SubSeq(win, 1, k)
At(idx) == [i \in DOMAIN idx |-> win[idx[i]]]

Class(s) == IF Has(s, Inf) /\ Has(s, NInf) THEN "nan"
            ELSE IF Has(s, Inf) THEN "inf"
            ELSE IF Has(s, NInf) THEN "ninf"
            ELSE IF Has(s, Big) \/ Has(s, -Big) THEN "big" ELSE "fin"
Res(c, v) == [c |-> c, v |-> v]
Fin(v) == Res("fin", v)

\* n times the mean; n*n times the variance: whole numbers
MeanOf(w) == IF Class(w) = "fin" THEN Fin(Sum(w)) ELSE Res(Class(w), 0)
IntMeanOf(w) == Fin(Trunc(Sum(w), Len(w)))
VarOf(w) == IF Has(w, Inf) \/ Has(w, NInf) THEN Res("nan", 0) ELSE Fin(Len(w) * Sum(Sq(w)) - Sum(w) * Sum(w))
Stat(k, w) == CASE k = "mean" -> MeanOf(w) [] k = "imean" -> IntMeanOf(w) [] k = "var" -> VarOf(w) [] k = "hist" -> Fin(0)

Init == /\ kind = "none" /\ n = 0 /\ win = <<>> /\ act = [in |-> [op |-> "init"], out |-> Fin(0)]

Query(in) ==
  CASE in.op = "get" -> IF kind = "hist" THEN Fin(win[in.k]) ELSE Stat(kind, win)
    [] in.op = "sum" -> Fin(Sum(Newest(in.k)))
    [] in.op = "max" -> Fin(Max(Newest(in.k)))
    [] in.op = "min" -> Fin(Min(Newest(in.k)))
    [] in.op = "mean" -> Fin(Trunc(Sum(Newest(in.k)), in.k))
    [] in.op = "variance" -> VarOf(Newest(in.k))
    [] in.op = "sumat" -> Fin(Sum(At(in.x)))
    [] in.op = "maxat" -> Fin(Max(At(in.x)))
    [] in.op = "minat" -> Fin(Min(At(in.x)))

Do(in) ==
  CASE in.op = "new" -> /\ kind' = in.kind /\ n' = in.n /\ win' = Zeros(in.n)
                        /\ act' = [in |-> in, out |-> Fin(0)]
    [] in.op = "put" -> /\ UNCHANGED <<kind, n>>
                        /\ win' = <<in.v>> \o SubSeq(win, 1, n - 1)
                        /\ act' = [in |-> in, out |-> Stat(kind, win')]
    [] in.op = "clear" -> /\ UNCHANGED <<kind, n>> /\ win' = Zeros(n)
                          /\ act' = [in |-> in, out |-> Fin(0)]
    [] OTHER -> /\ UNCHANGED <<kind, n, win>> /\ act' = [in |-> in, out |-> Query(in)]
=============================================================================
