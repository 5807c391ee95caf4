------------------------------ MODULE ScopeLife ------------------------------
(* The life of the scope server as its user sees it. Every call returns.      *)
EXTENDS Integers, Sequences
CONSTANT Viewers
VARIABLES on,      \* the server serves streams
          taken,   \* another program listens on the address
          view,    \* per viewer: "none", "live" or "dead"
          act
vars == <<on, taken, view, act>>
Init0 == on = FALSE /\ taken = FALSE /\ view = [x \in Viewers |-> "none"] /\ act = [in |-> [op |-> "init"], out |-> "ok"]
Out(in, o) == act' = [in |-> in, out |-> o]
AllDead == [x \in Viewers |-> IF view[x] = "live" THEN "dead" ELSE view[x]]
Do(in) ==
  CASE in.op = "start" ->
         /\ IF on THEN on' = on /\ Out(in, "error")
            ELSE IF taken THEN on' = on /\ \E o \in {"ok", "error"} : Out(in, o)
            ELSE on' = TRUE /\ Out(in, "ok")
         /\ UNCHANGED <<taken, view>>
    [] in.op = "stop" -> on' = FALSE /\ view' = AllDead /\ Out(in, "ok") /\ UNCHANGED taken
    [] in.op = "active" -> Out(in, on) /\ UNCHANGED <<on, taken, view>>
    [] in.op = "show" -> Out(in, "ok") /\ UNCHANGED <<on, taken, view>>
    [] in.op = "watch" ->   \* opens a stream and waits for its first frame
         /\ view[in.s] = "none" /\ ~taken
         /\ view' = [view EXCEPT ![in.s] = IF on THEN "live" ELSE "none"]
         /\ Out(in, IF on THEN "frame" ELSE "failed") /\ UNCHANGED <<on, taken>>
    [] in.op = "look" ->    \* receives up to the frame shown now
         /\ view[in.s] # "none"
         /\ view' = [view EXCEPT ![in.s] = IF @ = "live" THEN "live" ELSE "none"]
         /\ Out(in, IF view[in.s] = "live" THEN "frame" ELSE "ended") /\ UNCHANGED <<on, taken>>
    [] in.op = "occupy" ->  \* another program listens on the address of the server
         /\ ~taken /\ taken' = ~on /\ Out(in, IF on THEN "failed" ELSE "ok") /\ UNCHANGED <<on, view>>
    [] in.op = "release" -> taken /\ taken' = FALSE /\ Out(in, "ok") /\ UNCHANGED <<on, view>>
    [] in.op = "flip" ->    \* a start and right after it a stop
         /\ on' = FALSE /\ view' = AllDead /\ Out(in, "returned") /\ UNCHANGED taken
    [] in.op = "bounce" ->  \* a stop and right after it a start, that may come too early
         /\ on' \in (IF taken THEN {FALSE} ELSE IF on THEN BOOLEAN ELSE {TRUE})
         /\ view' = AllDead /\ Out(in, IF on' THEN "on" ELSE "off") /\ UNCHANGED taken
    [] in.op = "storm" ->   \* all calls at once, many times, and then a stop
         /\ on' = FALSE /\ view' = AllDead /\ Out(in, "returned") /\ UNCHANGED taken
==============================================================================
