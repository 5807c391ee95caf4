----------------------------- MODULE TelnetServer -----------------------------
(* The goroutines and channels behind telnet.Server: the spotter hands lines   *)
(* to the server loop, this one to the loop of each connection, which writes   *)
(* them to a socket whose buffer the client empties - or not.                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS C, MaxSpots, WithTimeout
VARIABLES n,        \* number of lines that the spotter handed over
          msg,      \* channel between spotter and server, capacity 1
          spc, cur, rest,   \* server: "loop", "write" (line cur to the connections of the sequence rest), "close", "done"
          conns,    \* connections of the server, in order
          q, cpc, hold, sock,  \* per connection: channel of capacity 1, "new"/"idle"/"write"/"closed", line in hand, socket buffer
          got, stuck, from,    \* per client: lines received, whether it stopped reading, first line it can expect
          stop
vars == <<n, msg, spc, cur, rest, conns, q, cpc, hold, sock, got, stuck, from, stop>>

Init == /\ n = 0 /\ msg = <<>> /\ spc = "loop" /\ cur = 0 /\ rest = <<>> /\ conns = <<>>
        /\ q = [c \in C |-> <<>>] /\ cpc = [c \in C |-> "new"] /\ hold = [c \in C |-> 0] /\ sock = [c \in C |-> <<>>]
        /\ got = [c \in C |-> <<>>] /\ stuck = [c \in C |-> FALSE] /\ from = [c \in C |-> 0] /\ stop = FALSE

Spot == /\ n < MaxSpots /\ (msg = <<>> \/ spc = "done")
        /\ n' = n + 1 /\ msg' = IF spc = "done" THEN msg ELSE <<n + 1>>
        /\ UNCHANGED <<spc, cur, rest, conns, q, cpc, hold, sock, got, stuck, from, stop>>
Accept(c) == /\ spc = "loop" /\ cpc[c] = "new" /\ ~stop
             /\ cpc' = [cpc EXCEPT ![c] = "idle"] /\ conns' = Append(conns, c)
             /\ from' = [from EXCEPT ![c] = IF msg = <<>> THEN n + 1 ELSE Head(msg)]
             /\ UNCHANGED <<n, msg, spc, cur, rest, q, hold, sock, got, stuck, stop>>
Take == /\ spc = "loop" /\ msg # <<>>
        /\ cur' = Head(msg) /\ msg' = <<>> /\ spc' = "write" /\ rest' = conns
        /\ UNCHANGED <<n, conns, q, cpc, hold, sock, got, stuck, from, stop>>
Without(s, c) == SelectSeq(s, LAMBDA x : x # c)
Write == /\ spc = "write" /\ rest # <<>>
         /\ LET c == Head(rest) IN
              \/ /\ cpc[c] # "closed" /\ q[c] = <<>> /\ q' = [q EXCEPT ![c] = <<cur>>] /\ rest' = Tail(rest)
                 /\ UNCHANGED <<conns, cpc>>
              \/ /\ cpc[c] = "closed" /\ conns' = Without(conns, c) /\ rest' = Tail(rest) /\ UNCHANGED <<q, cpc>>
              \/ \* the time limit strikes only connections that make no progress
                 /\ WithTimeout /\ cpc[c] = "write" /\ q[c] # <<>> /\ stuck[c]
                 /\ cpc' = [cpc EXCEPT ![c] = "closed"] /\ conns' = Without(conns, c) /\ rest' = Tail(rest) /\ UNCHANGED q
         /\ UNCHANGED <<n, msg, spc, cur, hold, sock, got, stuck, from, stop>>
Written == /\ spc = "write" /\ rest = <<>> /\ spc' = "loop"
           /\ UNCHANGED <<n, msg, cur, rest, conns, q, cpc, hold, sock, got, stuck, from, stop>>
StopReq == /\ ~stop /\ stop' = TRUE /\ UNCHANGED <<n, msg, spc, cur, rest, conns, q, cpc, hold, sock, got, stuck, from>>
Close == /\ spc = "loop" /\ stop
         /\ spc' = "done" /\ msg' = <<>>
         /\ cpc' = [c \in C |-> IF \E i \in DOMAIN conns : conns[i] = c THEN "closed" ELSE cpc[c]]
         /\ UNCHANGED <<n, cur, rest, conns, q, hold, sock, got, stuck, from, stop>>
Receive(c) == /\ cpc[c] = "idle" /\ q[c] # <<>>
              /\ hold' = [hold EXCEPT ![c] = Head(q[c])] /\ q' = [q EXCEPT ![c] = <<>>] /\ cpc' = [cpc EXCEPT ![c] = "write"]
              /\ UNCHANGED <<n, msg, spc, cur, rest, conns, sock, got, stuck, from, stop>>
Send(c) == /\ cpc[c] = "write" /\ sock[c] = <<>>
           /\ sock' = [sock EXCEPT ![c] = <<hold[c]>>] /\ cpc' = [cpc EXCEPT ![c] = "idle"]
           /\ UNCHANGED <<n, msg, spc, cur, rest, conns, q, hold, got, stuck, from, stop>>
Read(c) == /\ ~stuck[c] /\ sock[c] # <<>> /\ got' = [got EXCEPT ![c] = @ \o sock[c]] /\ sock' = [sock EXCEPT ![c] = <<>>]
           /\ UNCHANGED <<n, msg, spc, cur, rest, conns, q, cpc, hold, stuck, from, stop>>
Stick(c) == /\ ~stuck[c] /\ stuck' = [stuck EXCEPT ![c] = TRUE]
            /\ UNCHANGED <<n, msg, spc, cur, rest, conns, q, cpc, hold, sock, got, from, stop>>
Break(c) == /\ cpc[c] \in {"idle", "write"} /\ stuck[c] /\ cpc' = [cpc EXCEPT ![c] = "closed"]
            /\ UNCHANGED <<n, msg, spc, cur, rest, conns, q, hold, sock, got, stuck, from, stop>>
Server == Take \/ Write \/ Written \/ Close
Next == Spot \/ Server \/ StopReq \/ \E c \in C : Accept(c) \/ Receive(c) \/ Send(c) \/ Read(c) \/ Stick(c) \/ Break(c)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Spot) /\ WF_vars(Server)
        /\ \A c \in C : WF_vars(Receive(c)) /\ WF_vars(Send(c)) /\ WF_vars(Read(c))

\* each client gets a gapless run of the lines, starting with the first one after its connection
Gapless == \A c \in C : \A i \in DOMAIN got[c] : got[c][i] = from[c] + i - 1
\* every line is handed over, whatever the clients do
SpotReturns == <>(n = MaxSpots)
StopReturns == stop ~> spc = "done"
\* a client that keeps reading gets every line unless the server is stopped
Complete == \A c \in C : []((cpc[c] # "new" /\ from[c] > 0) => <>(stop \/ stuck[c] \/ from[c] + Len(got[c]) - 1 >= MaxSpots))
=============================================================================
