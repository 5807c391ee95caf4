----------------------------- MODULE ScopeServer ------------------------------
(* The calls and goroutines of the scope server, with its channels. Showing a  *)
(* frame and registering a stream are handed over to the run loop one at a     *)
(* time; both give up when the server has shut down. Every call returns and    *)
(* every stream ends once the server has stopped, also when the server cannot  *)
(* listen, and whatever the order of the steps is.                             *)
EXTENDS Integers, FiniteSets
CONSTANTS Showers, Openers, Stoppers
VARIABLES srv,       \* the server of the scope: "none", "set"
          wanted,    \* no stop was requested so far
          serve,     \* the background goroutine: "idle", "begin", "listening", "serving", "failed", "closing", "gone"
          loop,      \* the run loop: "none", "idle", "sending", "ended"
          shut,      \* the shutdown channel is closed
          show, open, stop,   \* where each call is
          streams    \* the registered streams
vars == <<srv, wanted, serve, loop, shut, show, open, stop, streams>>
Init == /\ srv = "none" /\ wanted = TRUE /\ serve = "idle" /\ loop = "none" /\ shut = FALSE
        /\ show = [x \in Showers |-> "idle"] /\ open = [x \in Openers |-> "idle"] /\ stop = [x \in Stoppers |-> "idle"]
        /\ streams = {}
\* Start: the server is set before the goroutine starts
Start == /\ serve = "idle" /\ srv' = "set" /\ serve' = "begin"
         /\ UNCHANGED <<wanted, loop, shut, show, open, stop, streams>>
Begin == /\ serve = "begin" /\ serve' = IF wanted THEN "listening" ELSE "closing"
         /\ UNCHANGED <<srv, wanted, loop, shut, show, open, stop, streams>>
Listen == /\ serve = "listening"
          /\ \/ serve' = "closing" /\ loop' = loop          \* the address is in use
             \/ serve' = "serving" /\ loop' = "idle"
          /\ UNCHANGED <<srv, wanted, shut, show, open, stop, streams>>
Served == /\ serve = "serving" /\ ~wanted /\ serve' = "closing"
          /\ UNCHANGED <<srv, wanted, loop, shut, show, open, stop, streams>>
Closing == /\ serve = "closing" /\ shut' = TRUE /\ serve' = "gone" /\ srv' = "none"
           /\ UNCHANGED <<wanted, loop, show, open, stop, streams>>
LoopEnd == /\ loop = "idle" /\ shut /\ loop' = "ended" /\ streams' = {}
           /\ open' = [x \in Openers |-> IF x \in streams THEN "ended" ELSE open[x]]
           /\ UNCHANGED <<srv, wanted, serve, shut, show, stop>>
LoopSent == /\ loop = "sending" /\ loop' = "idle"
            /\ \E s \in SUBSET streams : \* streams that are full
                 streams' = streams \ s /\ open' = [x \in Openers |-> IF x \in s THEN "ended" ELSE open[x]]
            /\ UNCHANGED <<srv, wanted, serve, shut, show, stop>>
Show(p) ==
  \/ /\ show[p] = "idle" /\ show' = [show EXCEPT ![p] = IF srv = "set" THEN "handing" ELSE "done"]
     /\ UNCHANGED <<srv, wanted, serve, loop, shut, open, stop, streams>>
  \/ /\ show[p] = "handing" /\ serve = "begin" \* the server does not run yet: the frame is dropped
     /\ show' = [show EXCEPT ![p] = "done"]
     /\ UNCHANGED <<srv, wanted, serve, loop, shut, open, stop, streams>>
  \/ /\ show[p] = "handing" /\ loop = "idle"
     /\ show' = [show EXCEPT ![p] = "done"] /\ loop' = "sending"
     /\ UNCHANGED <<srv, wanted, serve, shut, open, stop, streams>>
  \/ /\ show[p] = "handing" /\ shut
     /\ show' = [show EXCEPT ![p] = "done"]
     /\ UNCHANGED <<srv, wanted, serve, loop, shut, open, stop, streams>>
Open(p) ==
  \/ /\ open[p] = "idle" /\ serve = "serving"   \* only a server that listens is asked
     /\ open' = [open EXCEPT ![p] = "handing"]
     /\ UNCHANGED <<srv, wanted, serve, loop, shut, show, stop, streams>>
  \/ /\ open[p] = "handing" /\ loop = "idle"
     /\ open' = [open EXCEPT ![p] = "open"] /\ streams' = streams \cup {p}
     /\ UNCHANGED <<srv, wanted, serve, loop, shut, show, stop>>
  \/ /\ open[p] = "handing" /\ shut
     /\ open' = [open EXCEPT ![p] = "ended"]
     /\ UNCHANGED <<srv, wanted, serve, loop, shut, show, stop, streams>>
Stop(p) ==
  \/ /\ stop[p] = "idle" /\ stop' = [stop EXCEPT ![p] = "done"]
     /\ wanted' = IF srv = "set" THEN FALSE ELSE wanted
     /\ UNCHANGED <<srv, serve, loop, shut, show, open, streams>>
Server == Start \/ Begin \/ Listen \/ Served \/ Closing \/ LoopEnd \/ LoopSent
Next == Server \/ (\E p \in Showers : Show(p)) \/ (\E p \in Openers : Open(p)) \/ (\E p \in Stoppers : Stop(p))
Fairness == /\ WF_vars(Begin) /\ WF_vars(Listen) /\ WF_vars(Served) /\ WF_vars(Closing) /\ WF_vars(LoopEnd) /\ WF_vars(LoopSent)
            /\ \A p \in Showers : WF_vars(show[p] # "idle" /\ Show(p))
            /\ \A p \in Openers : WF_vars(open[p] # "idle" /\ Open(p))
Spec == Init /\ [][Next]_vars /\ Fairness
\* every show returns; every stream that was opened ends after a stop, and so does the server
ShowReturns == \A p \in Showers : show[p] = "handing" ~> show[p] = "done"
OpenReturns == \A p \in Openers : open[p] = "handing" ~> open[p] \in {"open", "ended"}
StreamsEnd == \A p \in Openers : (~wanted /\ open[p] \in {"handing", "open"}) ~> open[p] = "ended"
StopEnds == ~wanted ~> srv = "none"
NoLateStream == loop = "ended" => streams = {}
==============================================================================
