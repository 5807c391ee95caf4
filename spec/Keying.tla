------------------------------- MODULE Keying --------------------------------
(* What the user of a Morse decoder relies on: the text that comes out is the    *)
(* text that was sent. Why this holds for every text is shown in MC_Timing and  *)
(* MC_Jitter on the specification of the decoder.                               *)
EXTENDS Integers, Sequences
VARIABLES sent,    \* whether something was sent before
          act
vars == <<sent, act>>
Blank == 32
Init0 == sent = FALSE /\ act = [in |-> [op |-> "init"], out |-> <<>>]
Out(in, o) == act' = [in |-> in, out |-> o]
\* a text, followed by silence
Do(in) == in.op = "send" /\ sent' = TRUE
  /\ \/ ~sent /\ Out(in, in.text)           \* a blank may tell that it was silent before the first text
     \/ Out(in, <<Blank>> \o in.text)
=============================================================================
