---- MODULE MC_Timing ----
(* Regular keying: both thresholds in all states that marks (or gaps) of a    *)
(* constant speed can lead to, and how the next mark or gap is understood     *)
(* there. The thresholds do not depend on each other and not on the text, so  *)
(* this covers every text.                                                    *)
EXTENDS Decoder, TLC
CONSTANTS PresetDit, Speeds, Shared     \* Speeds: the durations of a dit in 1/Shared ticks
VARIABLES t, kind, speed
Down(x) == (x * speed) \div Shared
UpTo(x) == CeilDiv(x * speed, Shared)
Durations(x) == {Down(x), UpTo(x)}
TInit == Init0(PresetDit) /\ t = Preset(PresetDit) /\ kind \in {"mark", "gap"} /\ speed \in Speeds
Kinds == IF kind = "mark" THEN {1, 3} ELSE {1, 3, 7}
TNext == /\ \E x \in Kinds : \E d \in Durations(x) : t' \in Put(t, d, kind = "gap")
         /\ UNCHANGED <<dec, deb, dit, act, kind, speed>>
View == <<t, kind, speed>>
Understood ==
  \A x \in Kinds : \A d \in Durations(x) : \A t1 \in Put(t, d, kind = "gap") :
    IF kind = "mark" THEN /\ AtLeast(d * U, 2 * t1.ha, 2 * t1.hb) = {FALSE}
                          /\ AtLeastMean(d, t1) = {x = 3}
    ELSE /\ AtLeast(2 * d * U, 9 * t1.la, 9 * t1.lb) = {x = 7}
         /\ AtLeastMean(d, t1) = {x >= 3}
         /\ \A lim \in Limits(t1) : lim > UpTo(7)     \* a word gap is no end of the transmission
====
