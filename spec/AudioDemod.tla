----------------------------- MODULE AudioDemod ------------------------------
(* The audio demodulator: samples become blocks, each block is a tone or not,   *)
(* and that keys the decoder (module Decoder, behind a debouncer). A tone is    *)
(* given by its amplitude; it changes only where a block ends. The other        *)
(* channels carry something else.                                               *)
EXTENDS Decoder
VARIABLES
  cfg,        \* the sample rate and the block size
  set,        \* the settings
  ph,         \* samples until the next one of the first channel
  pos, amp,   \* samples in the block that is not complete, and their amplitude
  closed
allvars == <<dec, deb, dit, cfg, set, ph, pos, amp, closed, act>>

\* amplitudes, scales and thresholds are in thousandths; a scale of 0 stands for an automatic one
Defaults == [maxscale |-> 12000, scale |-> 1000, channels |-> 1, threshold |-> 750, debounce |-> 3, wpm |-> 20]
DitOf(w) == CeilDiv(12 * cfg.rate, 10 * w * cfg.block)
MinOf(a, b) == IF a < b THEN a ELSE b
Level(a) == MinOf(1000, IF a = 0 THEN 0
                        ELSE IF set.scale = 0 THEN MinOf(1000, (a * set.maxscale) \div 1000)
                        ELSE (a * set.scale) \div 1000)
\* whether a block is a tone; within 7 % of the threshold this is open
IsTone(a) == LET v == Level(a) t == set.threshold IN
  IF 100 * v > 107 * t THEN {TRUE} ELSE IF 100 * v < 93 * t THEN {FALSE} ELSE {TRUE, FALSE}

AInit(c) == /\ cfg = c /\ set = Defaults /\ ph = 0 /\ pos = 0 /\ amp = 0 /\ closed = FALSE
            /\ dit = CeilDiv(12 * c.rate, 200 * c.block) /\ dec = Fresh(CeilDiv(12 * c.rate, 200 * c.block))
            /\ deb = [n |-> 3, last |-> FALSE, cnt |-> 0] /\ act = [in |-> [op |-> "init"], out |-> <<>>]
\* n blocks that are a tone or not: all possible <<decoder, debouncer, text>>
KeyFrom(d, b, k, n) ==
  LET before == IF k = b.last THEN b.cnt ELSE 0
      wait == IF b.n < 2 \/ k = d.key THEN 0 ELSE LET w == b.n - 1 - before IN IF w < 0 THEN 0 ELSE w
      w == IF wait > n THEN n ELSE wait
      text(o) == [x \in DOMAIN o |-> o[x][2]]
  IN UNION {{<<r2[1], [b EXCEPT !.last = k, !.cnt = before + n], text(r1[2]) \o text(r2[2])>> : r2 \in Run(r1[1], k, n - w)} : r1 \in Run(d, d.key, w)}
Key(k, n) == KeyFrom(dec, deb, k, n)
Text(t) == [text |-> t]
Do2(in) ==
  CASE in.op = "write" /\ ~closed ->
         LET first == IF in.n > ph THEN CeilDiv(in.n - ph, set.channels) ELSE 0      \* samples of the first channel
             blocks == (pos + first) \div cfg.block
         IN /\ pos = 0 \/ in.amp = amp
            /\ pos' = (pos + first) % cfg.block
            /\ amp' = IF pos' = 0 THEN 0 ELSE in.amp
            /\ ph' = (ph - in.n) % set.channels
            /\ IF blocks = 0 THEN UNCHANGED <<dec, deb>> /\ Out(in, Text(<<>>))
               ELSE \E k \in IsTone(in.amp) : \E r \in Key(k, blocks) : dec' = r[1] /\ deb' = r[2] /\ Out(in, Text(r[3]))
            /\ UNCHANGED <<dit, cfg, set, closed>>
    [] in.op = "set" /\ ~closed ->
         /\ set' = [set EXCEPT ![in.what] = in.v]
         /\ ph' = IF in.what = "channels" THEN 0 ELSE ph
         /\ deb' = IF in.what = "debounce" THEN [deb EXCEPT !.n = in.v] ELSE deb
         /\ IF in.what = "wpm" THEN dit' = DitOf(in.v) /\ dec' = [dec EXCEPT !.on = Preset(dit'), !.off = Preset(dit')]
            ELSE UNCHANGED <<dit, dec>>
         /\ Out(in, Text(<<>>)) /\ UNCHANGED <<cfg, pos, amp, closed>>
    [] in.op = "get" /\ ~closed -> Out(in, set[in.what]) /\ UNCHANGED <<dec, deb, dit, cfg, set, ph, pos, amp, closed>>
    [] in.op = "close" /\ ~closed -> \* what is pending is output
         /\ closed' = TRUE /\ dec' = Finished(dec) /\ Out(in, Text(Character(dec))) /\ UNCHANGED <<deb, dit, cfg, set, ph, pos, amp>>
    [] in.op = "closebusy" /\ ~closed -> \* while the output is busy and calls wait: all of them return
         /\ closed' = TRUE /\ Out(in, "returned") /\ UNCHANGED <<dec, deb, dit, cfg, set, ph, pos, amp>>
    [] closed /\ in.op \in {"write", "set", "get", "close", "closebusy"} -> \* each call returns
         Out(in, "returned") /\ UNCHANGED <<dec, deb, dit, cfg, set, ph, pos, amp, closed>>
=============================================================================
