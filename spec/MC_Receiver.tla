---- MODULE MC_Receiver ----
EXTENDS Receiver, TLC, Json
CONSTANTS Scenario
S(b, k, lv, w) == [b |-> b, k |-> k, lv |-> lv, w |-> w]
Carrier(b) == S(b, "on", 40, <<>>)
Feed(sig, n) == [op |-> "feed", sig |-> sig, n |-> n]
Held(sig, n, d) == [op |-> "held", sig |-> sig, n |-> n, d |-> d]
Midway(sig, k, d) == [op |-> "midway", sig |-> sig, k |-> k, d |-> d]
Set(k, v) == [op |-> "set", k |-> k, v |-> v]
Vfo(b) == [op |-> "vfo", b |-> b]
Tick(d) == [op |-> "tick", d |-> d]
Start(size) == [op |-> "start", size |-> size]
Stop == [op |-> "stop"]
Get == [op |-> "get"]
Cleanup == [op |-> "cleanup"]
Test(b) == S(b, "plain", 40, <<"test">>)
Used == DOMAIN table \cup {ls[x].bin : x \in Busy}
Initially(k, v) == set[k] = v   \* the setting is made before anything else
\* what is done in the scenarios
Inputs ==
  CASE Scenario = "timeouts" ->   \* C03: the moments of release
         {Set("silence", 1), Set("busy", 3), Start(1), Stop, Tick(1), Feed(<<>>, 1), Feed(<<Carrier(20)>>, 1),
          Feed(<<Carrier(20), Carrier(90)>>, 1), Feed(<<Test(20)>>, 4),
          Midway(<<Carrier(20)>>, 40, 1), Midway(<<Carrier(90)>>, 99, 2)}
    [] Scenario = "expiry" ->     \* C03: and after the signals were forgotten
         {Set("silence", 50), Set("busy", 100), Start(1), Tick(60), Feed(<<>>, 1), Feed(<<Carrier(20)>>, 1), Feed(<<Test(20)>>, 4), Cleanup}
    [] Scenario = "decoding" ->   \* C03: in decode mode
         {Set("silence", 1), Set("busy", 3), Start(1), Stop, Tick(2), Vfo(20), Feed(<<>>, 1), Feed(<<Carrier(20)>>, 1), Feed(<<Test(20)>>, 4)}
    [] Scenario = "reports" ->    \* C01
         {Set("silence", 1), Set("busy", 2), Start(1), Stop, Tick(2), Feed(<<>>, 1), Feed(<<Carrier(20)>>, 1), Feed(<<Carrier(20), Carrier(90)>>, 1),
          Feed(<<S(20, "plain", 40, <<"dl1abc", "k3lr">>)>>, 9), 
          Held(<<S(20, "plain", 40, <<"dl1abc", "e">>)>>, 6, 2), Held(<<S(90, "plain", 40, <<"dl1abc", "e">>)>>, 6, 0)}
    [] Scenario = "debounces" ->  \* C08: the debounce
         {Start(1), Stop, Set("deb", 1), Set("deb", 3), Set("deb", 9), Feed(<<Carrier(20)>>, 4), Feed(<<Carrier(20), Carrier(90)>>, 4),
          Feed(<<S(20, "quick", 40, <<"vvv", "k3lr", "e">>)>>, 7), Feed(<<S(20, "noisy", 40, <<"vvv", "k3lr", "e">>)>>, 7), Feed(<<S(90, "quick", 40, <<"vvv", "k3lr", "e">>)>>, 7)}
    [] Scenario = "silences" ->   \* C08: the timeouts
         {Start(1), Stop, Set("silence", 1), Set("silence", 3), Set("busy", 2), Set("busy", 5), Tick(2), Feed(<<Carrier(20)>>, 1), Feed(<<Carrier(90)>>, 1)}
    [] Scenario = "tuning" ->     \* C08: threshold, edge width, center frequency
         {Start(1), Stop, Set("thr", 6), Set("thr", 15), Set("thr", 50), Set("edge", 4), Set("edge", 24), Set("center", 0), Set("center", 1),
          Feed(<<S(60, "on", 9, <<>>)>>, 1), Feed(<<Carrier(30)>>, 1), Feed(<<S(90, "on", 12, <<>>), S(0, "low", 6, <<>>)>>, 1)}
    [] Scenario = "scopes" ->     \* C08: the scope
         {Start(1), Stop, Set("scope", "A"), Set("scope", "B"), Set("scope", "none"), Feed(<<Carrier(30)>>, 1), Feed(<<Carrier(60)>>, 1)}
    [] Scenario = "vfos" ->       \* C11: strain mode
         {Set("silence", 1), Start(1), Stop, Tick(2), Vfo(20), Vfo(90), Vfo(50), Feed(<<Carrier(20)>>, 1), Feed(<<Carrier(20), Carrier(90)>>, 1),
          Feed(<<Test(20)>>, 4), Feed(<<S(90, "plain", 40, <<"cq", "de">>)>>, 5)}
    [] Scenario = "tracking" ->   \* C11: decode mode
         {Start(1), Stop, Vfo(20), Vfo(90), Set("center", 0), Set("center", 1), Feed(<<Carrier(20)>>, 1), Feed(<<Test(20)>>, 4),
          Feed(<<S(90, "plain", 40, <<"cq", "k3lr", "e">>)>>, 7)}
    [] Scenario = "lives" ->      \* C04
         {Start(1), Start(2), Stop, Get, Set("center", 0), Set("center", 1), Set("silence", 1), Tick(2),
          Feed(<<>>, 1), Feed(<<Carrier(30)>>, 1), Feed(<<Carrier(30), Carrier(60)>>, 1)}
    [] Scenario = "decodelives" ->
         {Start(1), Start(2), Stop, Get, Set("center", 0), Set("center", 1), Set("silence", 1), Tick(2), Cleanup, Vfo(30),
          Feed(<<>>, 1), Feed(<<Test(30)>>, 4)}
Asked(in) ==
  CASE Scenario = "timeouts" -> /\ in.op = "set" => ~run /\ set[in.k] # in.v /\ table = <<>>
                                /\ in.op # "set" => set.silence = 1 /\ set.busy = 3
                                /\ in.op = "start" => ~run
                                /\ in.op = "stop" => run
    [] Scenario = "expiry" -> /\ in.op = "set" => ~run /\ set[in.k] # in.v /\ table = <<>>
                              /\ in.op # "set" => set.silence = 50 /\ set.busy = 100
                              /\ in.op = "start" => ~run
    [] Scenario = "decoding" -> /\ in.op = "set" => ~run /\ set[in.k] # in.v
                                /\ in.op # "set" => set.silence = 1 /\ set.busy = 3
                                /\ in.op = "start" => ~run
                                /\ in.op = "vfo" => run
    [] Scenario = "reports" -> /\ in.op = "set" => ~run /\ set[in.k] # in.v /\ table = <<>>
                               /\ in.op # "set" => set.silence = 1 /\ set.busy = 2
                               /\ in.op \in {"feed", "held"} => \A y \in DOMAIN in.sig : in.sig[y].k = "on" \/
                                    \E x \in Busy : /\ ls[x].bin = in.sig[y].b
                                                    /\ \A z \in DOMAIN in.sig[y].w : LET c == in.sig[y].w[z] IN c \in DOMAIN ls[x].count => ls[x].count[c] < IF in.sig[y].b = 20 THEN 3 ELSE 2
    [] Scenario \in {"silences", "tuning", "scopes", "tracking"} ->
         /\ in.op = "start" => ~run
         /\ in.op = "stop" => run
         /\ in.op = "set" => set[in.k] # in.v
         /\ in.op = "feed" => run /\ \A y \in DOMAIN in.sig : /\ in.sig[y].k = "low" => set.thr = 15
                                                          /\ \A x \in Busy : \A z \in DOMAIN in.sig[y].w : LET c == in.sig[y].w[z] IN c \in DOMAIN ls[x].count => ls[x].count[c] < 3
    [] Scenario = "debounces" ->
         /\ in.op = "start" => ~run
         /\ in.op = "stop" => run
         /\ in.op = "set" => set[in.k] # in.v
         /\ in.op = "feed" => \A y \in DOMAIN in.sig : in.sig[y].k = "on" \/ \E x \in Busy : ls[x].bin = in.sig[y].b /\ ls[x].count = <<>>
    [] Scenario = "vfos" ->
         /\ in.op = "set" => ~run /\ set.silence # 1
         /\ in.op # "set" => set.silence = 1
         /\ in.op \in {"start", "vfo"} => ~run \/ in.op = "vfo"
         /\ in.op = "stop" => run
    [] OTHER -> TRUE
MCInit == Init0
MCNext == \E in \in Inputs : Asked(in) /\ Do(in)
View == <<run, set, table, ls, printing>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- C01 ----
RECURSIVE Follow(_, _)
\* follows the reports of one listener; a state is the frequency or -1
Follow(f, evs) == IF evs = <<>> THEN f
                  ELSE IF f = -2 THEN -2
                  ELSE LET e == Head(evs) IN
                       Follow(IF e.k = "on" THEN (IF f = -1 THEN e.f ELSE -2)
                              ELSE IF f # e.f THEN -2
                              ELSE IF e.k = "off" THEN -1 ELSE f, Tail(evs))
Frequency(l) == IF l = Nobody THEN -1 ELSE l.f
Bracketed == [][\A x \in 1..Pool : Follow(Frequency(ls[x]), SelectSeq(act'.out.ev, LAMBDA e : e.id = x)) = Frequency(ls'[x])]_vars
OneEach == \A x, y \in Busy : x # y => ls[x].bin # ls[y].bin
\* ---- C03 ----
Gone(x) == \E y \in DOMAIN act'.out.ev : act'.out.ev[y].k = "off" /\ act'.out.ev[y].id = x
\* when blocks are processed, a listener goes if and only if its time is over; the first block may bring it text
Released == [][act'.in.op = "feed" /\ run => \A x \in Busy : IF Mode = "decode" THEN ~Gone(x) ELSE
                 /\ Gone(x) => ls[x].at > set.busy \/ ls[x].wr > set.silence
                 /\ (ls[x].at > set.busy \/ ls[x].wr > set.silence) /\ ~Audible(SignalOn(act'.in.sig, ls[x].bin)) => Gone(x)]_vars
ReleasedMidway == [][act'.in.op = "midway" /\ run => \A x \in Busy : IF Mode = "decode" THEN ~Gone(x) ELSE
                 /\ Gone(x) => ls[x].at + act'.in.d > set.busy \/ ls[x].wr + act'.in.d > set.silence
                 /\ ls[x].at + act'.in.d > set.busy => Gone(x)]_vars
Otherwise == [][act'.in.op \in {"tick", "cleanup", "start"} => \A x \in Busy : ~Gone(x)]_vars
\* ---- C11 ----
Following == [][act'.out.txt # <<>> => /\ printing \in Busy
                                       /\ \E y \in DOMAIN act'.in.sig : act'.in.sig[y].b = ls[printing].bin /\ act'.in.sig[y].w = act'.out.txt]_vars
AtVFO == printing # 0 => printing \in Busy /\ ls[printing].bin = set.vfo /\ ls[printing].f = Token(set.center, set.vfo)
OneOnly == Mode = "decode" => Cardinality(Busy) <= 1 /\ (run /\ set.vfo # 0 => Cardinality(Busy) = 1 /\ printing = 1)
\* ---- C04 ----
Silent == ~run => Busy = {} /\ table = <<>>
====
