------------------------- MODULE Trace_ScopeStreams --------------------------
(* What viewers receive from the scope server over the network. A viewer sees  *)
(* the frames of all kinds in one list (kind "") or, with the client of the    *)
(* package, one list per kind ("t" and "s"). In each list the frames are a     *)
(* contiguous run. A viewer's stream only ends after a stop, or when so many   *)
(* frames are unread that the buffer must have been full.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cap, hold, shown, vs, stopped
vars == <<l, cap, hold, shown, vs, stopped>>
Kinds == {"t", "s", ""}
Init == l = 1 /\ cap = 0 /\ hold = 0 /\ shown = [k \in Kinds |-> <<>>] /\ vs = <<>> /\ stopped = FALSE
In == Log[l].i
O == Log[l].o
\* pos: the index of the next frame, 0 if the stream did not begin; from: the first index that may begin it; 
\* lost: the first index that the stream cannot deliver any more, 0 if none
Lists(v) == IF v.typed THEN {"t", "s"} ELSE {""}
Begun(v) == v.pos[IF v.typed THEN "t" ELSE ""] # 0
Unread(v) == IF v.typed THEN Len(shown["t"]) - v.pos["t"] + 1 + Len(shown["s"]) - v.pos["s"] + 1
             ELSE Len(shown[""]) - v.pos[""] + 1
Live(v) == v.st = "live"
Step ==
  \/ /\ In.op = "reset"
     /\ cap' = In.cap /\ hold' = In.hold /\ shown' = [k \in Kinds |-> <<>>] /\ vs' = <<>> /\ stopped' = FALSE
  \/ /\ In.op = "show" /\ O = "ok"
     /\ shown' = [shown EXCEPT ![In.k] = Append(@, In.f), ![""] = Append(@, In.f)]
     /\ vs' = [x \in DOMAIN vs |->
                 IF hold > 0 /\ ~vs[x].typed /\ Begun(vs[x]) /\ vs[x].lost = 0 /\ Unread(vs[x]) >= hold
                 THEN [vs[x] EXCEPT !.lost = Len(shown[""]) + 1] ELSE vs[x]]
     /\ UNCHANGED <<cap, hold, stopped>>
  \/ /\ In.op = "open" /\ In.v = Len(vs) + 1
     /\ vs' = Append(vs, [typed |-> In.typed, slow |-> In.slow, st |-> "live", lost |-> 0, ended |-> {},
                          from |-> Len(shown[IF In.typed THEN "t" ELSE ""]) + 1,
                          pos |-> [k \in Kinds |-> IF k = "s" THEN Len(shown["s"]) + 1 ELSE 0]])
     /\ UNCHANGED <<cap, hold, shown, stopped>>
  \/ /\ In.op = "leave"
     /\ vs' = [vs EXCEPT ![In.v].st = "left"]
     /\ UNCHANGED <<cap, hold, shown, stopped>>
  \/ /\ In.op = "stop" /\ O = "ok"
     /\ stopped' = TRUE
     /\ UNCHANGED <<cap, hold, shown, vs>>
  \/ /\ In.op = "recv" /\ Live(vs[In.v]) /\ In.k \in Lists(vs[In.v]) /\ In.k \notin vs[In.v].ended
     /\ LET v == vs[In.v] k == In.k IN
          CASE O = "nothing" -> ~stopped /\ (v.pos[k] = 0 \/ v.pos[k] > Len(shown[k])) /\ vs' = vs
            [] O = "ended" -> /\ \/ stopped
                                 \/ Begun(v) /\ Unread(v) > cap
                                 \/ v.ended # {}
                              /\ vs' = [vs EXCEPT ![In.v].ended = @ \cup {k}]
            [] OTHER -> \E p \in (IF v.pos[k] = 0 THEN v.from ELSE v.pos[k])..(IF v.pos[k] = 0 THEN Len(shown[k]) ELSE v.pos[k]) :
                          /\ p <= Len(shown[k]) /\ shown[k][p] = O
                          /\ v.lost = 0 \/ p < v.lost
                          /\ vs' = [vs EXCEPT ![In.v].pos[k] = p + 1]
     /\ UNCHANGED <<cap, hold, shown, stopped>>
Next == l <= Len(Log) /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Depth == TLCGet("stats").diameter - 1
Accepted == IF Depth = Len(Log) THEN TRUE ELSE PrintT(<<"REJECTED_AT", Depth + 1>>) /\ FALSE
==============================================================================
