--------------------------------- MODULE RxLife ----------------------------------
(* The calls and goroutines of the receiver, with its locks and channels: one     *)
(* lock for the calls that control it and one for the incoming blocks. The run    *)
(* loop executes what the calls hand over to it, reports the listeners, and       *)
(* releases them when it is told to stop. The user of the reports takes a while   *)
(* for each of them. Every call returns, whatever the order of the steps is, and  *)
(* callers and user see what RxCalls describes.                                   *)
EXTENDS Integers, FiniteSets
CONSTANTS Callers, Free, Ops, Centers, Cap,
          Guarded  \* the calls that control it exclude each other (they did not always)
VARIABLES run,       \* there are channels: the receiver was started
          center, active, owed, calls,
          pc,        \* caller -> where it is
          lock,      \* the caller that has the lock, 0: nobody
          input,     \* blocks can be delivered
          queue,     \* number of blocks that wait
          quit,      \* the run loop is told to stop
          loop,      \* the run loop: "none", "idle", "tuning", "ending", "ended"
          todo,      \* the change that the run loop makes
          user,      \* the user of the reports is "busy" or "free"
          text       \* a listener's text is processed by its own goroutine, which reports, too: "none", "idle", "busy"
vars == <<run, center, active, owed, calls, pc, lock, input, queue, quit, loop, todo, user, text>>
Abstract == INSTANCE RxCalls
AInit == Abstract!Init
None == [k |-> 0, op |-> "none", v |-> 0]
Init == /\ AInit /\ pc = [k \in Callers |-> "idle"] /\ lock = 0 /\ input = FALSE /\ queue = 0 /\ quit = FALSE
        /\ loop = "none" /\ todo = None /\ user = "free" /\ text = "none"
At(k, from, to) == pc[k] = from /\ pc' = [pc EXCEPT ![k] = to]
Call(k) == \E op \in Ops, v \in Centers :
  /\ op # "center" => v = 0
  /\ Abstract!Call(k, op, v) /\ At(k, "idle", IF op = "iq" THEN "deliver" ELSE "enter")
  /\ UNCHANGED <<lock, input, queue, quit, loop, todo, user, text>>
Enter(k) == /\ At(k, "enter", IF calls[k].op \in {"start", "stop"} THEN calls[k].op ELSE "do")
            /\ lock' = (IF Guarded THEN k ELSE 0) /\ (Guarded => lock = 0)
            /\ UNCHANGED <<run, center, active, owed, calls, input, queue, quit, loop, todo, user, text>>
\* blocks are never waited for
Deliver(k) == /\ At(k, "deliver", "leave") /\ Abstract!Effect(k)
              /\ queue' = (IF input /\ queue < Cap THEN queue + 1 ELSE queue)
              /\ UNCHANGED <<lock, input, quit, loop, todo, user, text>>
Start(k) == /\ At(k, "start", "leave") /\ Abstract!Effect(k)
            /\ IF run THEN UNCHANGED <<input, loop, queue, quit>> ELSE input' = TRUE /\ loop' = "idle" /\ queue' = 0 /\ quit' = FALSE
            /\ UNCHANGED <<lock, todo, user, text>>
\* no block comes any more; then the run loop is told to stop
Stop(k) == \/ /\ ~run /\ At(k, "stop", "leave") /\ Abstract!Effect(k)
              /\ UNCHANGED <<lock, input, queue, quit, loop, todo, user, text>>
           \/ /\ run /\ At(k, "stop", "ended") /\ input' = FALSE /\ quit' = TRUE
              /\ UNCHANGED <<run, center, active, owed, calls, lock, queue, loop, todo, user, text>>
Ended(k) == /\ loop = "ended" /\ At(k, "ended", "leave") /\ Abstract!Effect(k) /\ loop' = "none" /\ quit' = FALSE
            /\ UNCHANGED <<lock, input, queue, todo, user, text>>
\* without a run loop the caller makes the change itself
Do(k) == \/ /\ ~run /\ At(k, "do", "leave") /\ Abstract!Effect(k)
            /\ UNCHANGED <<lock, input, queue, quit, loop, todo, user, text>>
         \/ /\ run /\ loop = "idle" /\ At(k, "do", "handed") /\ loop' = "tuning" /\ todo' = [k |-> k, op |-> calls[k].op, v |-> calls[k].v]
            /\ UNCHANGED <<run, center, active, owed, calls, lock, input, queue, quit, user, text>>
\* the lock is given back as soon as the change is handed over; only a query waits for its result
Handed(k) == /\ At(k, "handed", "leave")
             /\ calls[k].op = "get" => calls[k].st = "done"
             /\ lock' = 0 /\ UNCHANGED <<run, center, active, owed, calls, input, queue, quit, loop, todo, user, text>>
Leave(k) == /\ At(k, "leave", "idle") /\ Abstract!Return(k)
            /\ lock' = (IF lock = k THEN 0 ELSE lock) /\ todo' = (IF todo.k = k THEN [todo EXCEPT !.k = 0] ELSE todo)
            /\ UNCHANGED <<input, queue, quit, loop, user, text>>
\* ---- the run loop ----
\* before a listener is released, its text is processed to its end; the report waits for the user
Release(x) == /\ Abstract!Off(x) /\ text # "busy" /\ user = "free" /\ user' = "busy" /\ text' = "none"
              /\ UNCHANGED <<pc, lock, input, queue, quit, loop, todo>>
Tune == /\ loop = "tuning"
        /\ IF todo.op = "center" /\ todo.v # center /\ active # {}
           THEN \E x \in active : Release(x)
           ELSE /\ user = "free" /\ loop' = "idle" /\ todo' = None
                /\ IF todo.k # 0 THEN Abstract!Effect(todo.k) ELSE Abstract!Tuned
                /\ UNCHANGED <<pc, lock, input, queue, quit, user, text>>
Quit == /\ loop = "idle" /\ quit /\ loop' = "ending"
        /\ UNCHANGED <<run, center, active, owed, calls, pc, lock, input, queue, quit, todo, user, text>>
End == /\ loop = "ending"
       /\ IF active # {} THEN \E x \in active : Release(x)
          ELSE /\ user = "free" /\ loop' = "ended" /\ UNCHANGED <<run, center, active, owed, calls, pc, lock, input, queue, quit, todo, user, text>>
Frame == /\ loop = "idle" /\ queue > 0 /\ queue' = queue - 1 /\ user = "free"
         /\ \/ \E x \in Free : Abstract!On(x, center) /\ active = {} /\ user' = "busy" /\ text' = "idle"
            \/ \E x \in active : Abstract!Off(x) /\ text # "busy" /\ user' = "busy" /\ text' = "none"
            \/ UNCHANGED <<run, center, active, owed, calls, user, text>>
         /\ UNCHANGED <<pc, lock, input, quit, loop, todo>>
\* ---- the text of a listener, and the user ----
Text == /\ text = "idle" /\ text' = "busy" /\ UNCHANGED <<run, center, active, owed, calls, pc, lock, input, queue, quit, loop, todo, user>>
Told == /\ text = "busy" /\ text' = "idle" /\ UNCHANGED <<run, center, active, owed, calls, pc, lock, input, queue, quit, loop, todo, user>>
User == /\ user = "busy" /\ user' = "free" /\ UNCHANGED <<run, center, active, owed, calls, pc, lock, input, queue, quit, loop, todo, text>>
Step(k) == Enter(k) \/ Deliver(k) \/ Start(k) \/ Stop(k) \/ Ended(k) \/ Do(k) \/ Handed(k) \/ Leave(k)
Loop == Tune \/ Quit \/ End \/ Frame
Next == (\E k \in Callers : Call(k) \/ Step(k)) \/ Loop \/ Text \/ Told \/ User
Fairness == /\ \A k \in Callers : SF_vars(Enter(k)) /\ WF_vars(Step(k)) /\ SF_vars(Do(k))
            /\ WF_vars(Tune) /\ WF_vars(End) /\ SF_vars(Quit) /\ WF_vars(Told) /\ WF_vars(User) /\ SF_vars(Tune) /\ SF_vars(End)
Spec == Init /\ [][Next]_vars /\ Fairness
\* every call returns
Returns == \A k \in Callers : calls[k].st # "idle" ~> calls[k].st = "idle"
\* what callers and user see
Refines == Abstract!Spec
\* there is exactly one run loop while the receiver runs, and nothing is reported without it
OneLoop == (run /\ lock = 0 => loop # "none") /\ (~run => loop = "none" /\ active = {} /\ ~input)
================================================================================
