------------------------------- MODULE KiwiConn -------------------------------
(* The connection of the KiwiSDR client to a server that takes the messages of  *)
(* the client one by one, stops taking them, rejects the client, hangs up, or   *)
(* whose connection breaks in one direction. Time advances in steps of a second.*)
EXTENDS Integers, Sequences
CONSTANTS Msgs,      \* number of messages that open the connection
          Period     \* seconds between keepalive messages
VARIABLES ph,        \* "none", "up", "down"
          n,         \* number of opening messages the server took
          ret,       \* the call Open has returned
          time,      \* seconds since the last keepalive was due
          due,       \* number of keepalive messages that were due but not taken; more than one may be dropped
          told,      \* the server announced the audio rate
          wbroken,   \* writes of the client fail
          act
vars == <<ph, n, ret, time, due, told, wbroken, act>>
Init0 == /\ ph = "none" /\ n = 0 /\ ret = FALSE /\ time = 0 /\ due = 0 /\ told = FALSE /\ wbroken = FALSE
         /\ act = [in |-> [op |-> "init"], out |-> "ok"]
Out(in, o) == act' = [in |-> in, out |-> o]
Up == ph = "up"
End == ph' = "down" /\ n' = 0 /\ time' = 0 /\ due' = 0 /\ told' = FALSE /\ wbroken' = FALSE
Do(in) ==
  CASE in.op = "dial" -> \* Open is called; kind: "ok", "refused", "rejected" (no websocket)
         /\ ph = "none"
         /\ ph' = IF in.kind = "ok" THEN "up" ELSE "none"
         /\ Out(in, IF in.kind = "ok" THEN "connected" ELSE "error") /\ UNCHANGED <<n, ret, time, due, told, wbroken>>
    [] in.op = "returned" -> \* has Open returned?
         /\ ph # "none" /\ ret' \in (IF ret \/ ph = "down" \/ n = Msgs THEN {TRUE} ELSE BOOLEAN)
         /\ Out(in, ret') /\ UNCHANGED <<ph, n, time, due, told, wbroken>>
    [] in.op = "take" -> \* the server takes the next message of the client
         /\ Up /\ ~wbroken
         /\ \/ /\ n < Msgs /\ n' = n + 1 /\ due' = due /\ Out(in, n')
            \/ /\ due > 0 /\ due' = due - 1 /\ n' = n /\ Out(in, "keepalive")
            \/ /\ n = Msgs /\ due = 0 /\ UNCHANGED <<n, due>> /\ Out(in, "nothing")
         /\ UNCHANGED <<ph, ret, time, told, wbroken>>
    [] in.op = "tick" ->
         /\ IF ~Up THEN UNCHANGED <<ph, n, time, due, told, wbroken>>
            ELSE IF time < Period - 1 THEN time' = time + 1 /\ UNCHANGED <<ph, n, due, told, wbroken>>
            ELSE IF wbroken THEN End    \* the keepalive cannot be written
            ELSE time' = 0 /\ due' \in (IF due = 0 THEN {1} ELSE {due, 2}) /\ UNCHANGED <<ph, n, told, wbroken>>
         /\ Out(in, "ok") /\ UNCHANGED ret
    [] in.op = "say" -> \* the server announces the audio rate, later it sends sound
         /\ ph # "none"
         /\ told' = Up /\ Out(in, IF ~Up THEN "lost" ELSE IF told THEN "data" ELSE "rate")
         /\ UNCHANGED <<ph, n, ret, time, due, wbroken>>
    [] in.op \in {"busy", "badp", "down", "hangup", "closeframe", "garbage", "readbreak"} ->
         /\ Up /\ End /\ Out(in, "ok") /\ UNCHANGED ret
    [] in.op = "writebreak" ->
         /\ Up /\ ~wbroken
         /\ IF n < Msgs \/ due > 0 THEN End ELSE wbroken' = TRUE /\ UNCHANGED <<ph, n, time, due, told>>
         /\ Out(in, "ok") /\ UNCHANGED ret
    [] in.op = "close" -> \* only who has the client can close it; any number of calls at once
         /\ ret /\ IF Up THEN End ELSE UNCHANGED <<ph, n, time, due, told, wbroken>>
         /\ Out(in, "returned") /\ UNCHANGED ret
    [] in.op = "closed" -> \* is the connection closed?
         /\ ph # "none" /\ Out(in, ~Up) /\ UNCHANGED <<ph, n, ret, time, due, told, wbroken>>
==============================================================================
