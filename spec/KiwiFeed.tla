-------------------------------- MODULE KiwiFeed --------------------------------
(* What the KiwiSDR process makes of the sound messages of the server. A message *)
(* carries blocks, each with a carrier of some level (in steps of 6 dB), and maybe *)
(* some more samples that are not a whole block. The scope shows the average of   *)
(* every Cumulation blocks.                                                        *)
EXTENDS Integers, Sequences
CONSTANT Cumulation
VARIABLES started,   \* the audio rate is known, the receiver runs
          over,      \* the process was closed, or the connection lost
          n, sum,    \* number of blocks since the last frame, and the sum of their levels
          act
vars == <<started, over, n, sum, act>>
Init0 == started = FALSE /\ over = FALSE /\ n = 0 /\ sum = 0 /\ act = [in |-> [op |-> "init"], out |-> <<>>]
Out(in, o) == act' = [in |-> in, out |-> o]
RECURSIVE Feed(_, _, _, _)
Feed(blocks, k, s, frames) ==
  IF blocks = <<>> THEN [n |-> k, sum |-> s, frames |-> frames]
  ELSE IF k + Head(blocks).n >= Cumulation
  THEN Feed(<<[Head(blocks) EXCEPT !.n = @ - (Cumulation - k)]>> \o Tail(blocks), 0, 0, Append(frames, s + (Cumulation - k) * Head(blocks).level))
  ELSE Feed(Tail(blocks), k + Head(blocks).n, s + Head(blocks).n * Head(blocks).level, frames)
Do(in) ==
  CASE in.op = "rate" -> \* the server announces the audio rate, always the same
         /\ started' = (started \/ ~over) /\ UNCHANGED <<over, n, sum>> /\ Out(in, <<>>)
    [] in.op = "sound" -> \* blocks: <<[n |-> number, level |-> level]>>, more: further samples
         LET f == Feed(in.blocks, n, sum, <<>>) IN
         /\ IF started /\ ~over /\ in.more = 0
            THEN n' = f.n /\ sum' = f.sum /\ Out(in, f.frames)
            ELSE UNCHANGED <<n, sum>> /\ Out(in, <<>>)
         /\ UNCHANGED <<started, over>>
    [] in.op \in {"hangup", "close"} ->
         /\ over' = TRUE /\ UNCHANGED <<started, n, sum>> /\ Out(in, <<>>)
================================================================================
