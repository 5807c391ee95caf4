---- MODULE MC_Tci ----
EXTENDS Tci, TLC, Json
CONSTANTS Scenario
VARIABLE last  \* what was done
S(b, k, lv, w) == [b |-> b, k |-> k, lv |-> lv, w |-> w]
Carrier(b) == S(b, "on", 40, <<>>)
Wait(dial) == [op |-> "wait", dial |-> dial]
Ready == [op |-> "ready"]
Hangup == [op |-> "hangup"]
Set(k, v) == [op |-> "set", k |-> k, v |-> v]
DDS(trx, c) == [op |-> "dds", trx |-> trx, c |-> c]
IF_(trx, vfo, b) == [op |-> "if", trx |-> trx, vfo |-> vfo, b |-> b]
IQ(trx, sig, n) == [op |-> "iq", trx |-> trx, sig |-> sig, n |-> n]
Show(l, s) == [op |-> "show", l |-> l, s |-> s]
Close(n) == [op |-> "close", n |-> n]
Text(b) == S(b, "plain", 40, <<"k3lr", "e">>)
Inputs ==
  CASE Scenario = "messages" ->   \* C27: all TRX and VFOs
         {Wait(TRUE), Ready, Hangup, DDS(1, 1), DDS(1, 2), DDS(0, 3), DDS(2, 3), IF_(1, 0, 100), IF_(1, 0, 300), IF_(1, 1, 300), IF_(0, 0, 300), IF_(2, 0, 100),
          IQ(1, <<Carrier(100)>>, 1), IQ(0, <<Carrier(200)>>, 1), IQ(2, <<Carrier(300)>>, 1), IQ(1, <<Text(100)>>, 5)}
    [] Scenario = "settings" ->   \* C27: the stored settings
         {Wait(TRUE), Wait(FALSE), Ready, Hangup, Set("silence", 100), Set("silence", 30), Set("busy", 150), Set("thr", 6), Set("deb", 9),
          IQ(1, <<S(100, "on", 9, <<>>)>>, 1), IQ(1, <<Carrier(300)>>, 1), IQ(1, <<Text(100)>>, 5)}
    [] Scenario = "decode" ->     \* C27: in decode mode
         {Wait(TRUE), Ready, Hangup, DDS(1, 1), DDS(1, 2), DDS(2, 3), IF_(1, 0, 100), IF_(1, 0, 300), IF_(1, 1, 300), IF_(0, 0, 300),
          IQ(1, <<Carrier(100)>>, 1), IQ(2, <<Carrier(300)>>, 1), IQ(1, <<Text(100)>>, 5)}
    [] Scenario \in {"display", "close"} -> \* C26, C28
         {Show(l, s) : l, s \in BOOLEAN} \cup {Wait(TRUE), Wait(FALSE), Ready, Hangup, DDS(1, 1)} \cup (IF Scenario = "close" THEN {Close(0), Close(95)} ELSE {})
         \cup {
          IQ(1, <<Carrier(100)>>, 1), IQ(1, <<Carrier(100), Carrier(300)>>, 2), IQ(1, <<S(100, "plain", 40, <<"k3lr", "k3lr", "e">>)>>, 8)}
Ages == {ls[x].at : x \in Busy} \cup {ls[x].wr : x \in Busy} \cup {table[b].age : b \in DOMAIN table}
Few == \A x \in Busy : \A c \in DOMAIN ls[x].count : ls[x].count[c] < 2
Asked(in) == /\ in.op = "wait" => /\ \A a \in Ages : a < 3 * Grid
                                  /\ in.dial => link = "down"
             /\ in.op = "iq" /\ in.trx = 1 => link = "up"
             /\ (in.op = "iq" /\ \E y \in DOMAIN in.sig : in.sig[y].k # "on") => Few
             /\ CASE Scenario \in {"messages", "decode"} -> in.op = "wait" => Ages = {}
                  [] Scenario = "settings" -> in.op = "set" => /\ in.k \in DOMAIN stored => stored[in.k] # in.v
                                                               /\ Cardinality(DOMAIN stored \ {in.k}) <= 1
                                                               /\ Busy = {}
                  [] OTHER -> /\ in.op = "show" => show = [l |-> FALSE, s |-> FALSE]
                              /\ in.op = "wait" /\ in.dial => Cardinality(Busy) < 2
                              /\ over => in.op \in {"close", "wait", "ready"}
MCInit == TInit0 /\ last = [op |-> "init"]
MCNext == \E in \in Inputs : Asked(in) /\ TDo(in) /\ last' = in
MCView == <<run, set, table, ls, printing, link, over, show, stored, on, ml, ms>>
Emit == PrintT("EDGE " \o ToJson([s |-> MCView, i |-> last', o |-> Observed(last'), t |-> MCView']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(MCView))
\* ---- C26 ----
Mirrored == \A x \in 1..Pool : /\ on[x] = IF x \in Busy THEN ls[x].f ELSE 0
                               /\ ml[x] \in {0, on[x]}
Hidden == /\ ~show.l => \A x \in 1..Pool : ml[x] = 0
          /\ ~show.s => \A c \in Calls : ms[c] = 0
\* ---- C27 ----
Foreign == [][last'.op \in {"dds", "if", "iq"} /\ last'.trx # 1 => UNCHANGED <<set, table, ls, printing>>]_<<tvars, last>>
Applied == link = "up" /\ ~over => \A k \in DOMAIN stored : set[k] = stored[k]
\* ---- C28 ----
Clean == over => ~run /\ Busy = {} /\ \A x \in 1..Pool : ml[x] = 0
====
