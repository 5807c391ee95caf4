--------------------------------- MODULE RxFeed ----------------------------------
(* How a receiver takes in IQ data. Blocks are told apart by the letter of their  *)
(* delivery and their place in it; sequences of blocks are lists of runs          *)
(* <<letter, first, last>>. The receiver may be stalled while it processes a      *)
(* block; up to Room further blocks wait then. Delivering never waits.            *)
EXTENDS Integers, Sequences
CONSTANTS Room
VARIABLES run,      \* 0: the receiver was not started, otherwise the rate and size it was started with
          stalled,  \* the receiver gets stuck with the next block
          stuck,    \* the receiver is stuck
          queue,    \* the blocks that wait
          act
vars == <<run, stalled, stuck, queue, act>>
Init0 == run = 0 /\ stalled = FALSE /\ stuck = FALSE /\ queue = <<>> /\ act = [in |-> [op |-> "init"], out |-> <<>>]
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q)[3] - Head(q)[2] + 1 + Total(Tail(q))
Waiting(v, from, n) == LET space == Room - Total(queue)
                           m == IF n < space THEN n ELSE space
                       IN IF m = 0 THEN queue ELSE Append(queue, <<v, from, from + m - 1>>)
Out(in, o) == act' = [in |-> in, out |-> o]
Do(in) ==
  CASE in.op = "start" -> \* has no effect on a running receiver
         /\ run' = (IF run = 0 THEN in.size ELSE run) /\ UNCHANGED <<stalled, stuck, queue>> /\ Out(in, <<>>)
    [] in.op = "stop" -> \* (not while it is stuck)
         /\ ~stuck /\ run' = 0 /\ UNCHANGED <<stalled, stuck, queue>> /\ Out(in, <<>>)
    [] in.op = "stall" -> stalled' = TRUE /\ UNCHANGED <<run, stuck, queue>> /\ Out(in, <<>>)
    [] in.op = "resume" -> stalled' = FALSE /\ stuck' = FALSE /\ queue' = <<>> /\ run' = run /\ Out(in, queue)
    [] in.op = "give" -> \* in.n blocks of the rate in.rate and the size in.size
         /\ UNCHANGED <<run, stalled>>
         /\ IF run = 0 \/ in.rate # run \/ in.size # run THEN UNCHANGED <<stuck, queue>> /\ Out(in, <<>>)
            ELSE IF stuck THEN stuck' = stuck /\ queue' = Waiting(in.v, 1, in.n) /\ Out(in, <<>>)
            ELSE IF stalled THEN /\ stuck' = TRUE /\ queue' = (IF in.n > 1 THEN Waiting(in.v, 2, in.n - 1) ELSE queue)
                                 /\ Out(in, << <<in.v, 1, 1>> >>)
            ELSE UNCHANGED <<stuck, queue>> /\ Out(in, << <<in.v, 1, in.n>> >>)
================================================================================
