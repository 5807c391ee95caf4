---- MODULE MC_Program ----
EXTENDS Program, FiniteSets
Base == [cmd |-> "strain", src |-> "tci", fault |-> "none", thr |-> 15, deb |-> 1, sil |-> 10, busy |-> 60, every |-> 60000, listeners |-> FALSE,
         spots |-> FALSE, call |-> "local-#", trx |-> 0, vfo |-> 100, scope |-> FALSE, debug |-> FALSE, bw |-> 10000, user |-> "", pw |-> "",
         center |-> 7020000, source |-> "", pitch |-> 700, wpm |-> 20, scale |-> 0, mag |-> 75, hasty |-> FALSE]
Faults == {"none", "flag", "value", "absent", "host", "taken", "source"}
Confs == {[Base EXCEPT !.src = s, !.cmd = c, !.fault = f, !.thr = t, !.deb = d, !.sil = i, !.every = e, !.listeners = li, !.spots = sp, !.scale = g] :
            s \in {"tci", "kiwi", "pulse"}, c \in {"strain", "decode"}, f \in Faults, t \in {15, 40}, d \in {1, 7}, i \in {2, 60}, e \in {1, 60000},
            li \in BOOLEAN, sp \in BOOLEAN, g \in {0, 100}}
Sensible(c) == /\ c.cmd = "decode" => c.src # "kiwi" /\ c.fault # "taken" /\ ~c.listeners /\ ~c.spots /\ c.every = 1 /\ c.sil = 2
               /\ c.cmd = "strain" => c.src # "pulse" /\ c.fault # "source"
               /\ c.src = "kiwi" => ~c.listeners /\ ~c.spots
               /\ c.src # "pulse" => c.scale = 0 /\ c.fault # "source"
               /\ c.src = "pulse" => c.thr = 15 /\ c.fault # "host"
               /\ c.fault # "none" => c.thr = 15 /\ c.deb = 1 /\ c.scale = 0
Inputs == {[op |-> "run", c |-> c] : c \in {x \in Confs : Sensible(x)}}
          \cup {[op |-> "client"]} \cup {[op |-> "bustle", deaf |-> d] : d \in BOOLEAN} \cup {[op |-> "quiet", t |-> n] : n \in {2, 10}}
          \cup {[op |-> "key", b |-> b, lv |-> v, c |-> c, n |-> n] : b \in {100, 300}, v \in {30, 50}, c \in {"w1aw"}, n \in {2, 3}}
          \cup {[op |-> "tune", b |-> b] : b \in {100, 300}} \cup {[op |-> "text", b |-> b, lv |-> 30, w |-> "test"] : b \in {100, 300}}
          \cup {[op |-> "sound", src |-> s, pitch |-> p, amp |-> a, wpm |-> 20, w |-> "test"] : s \in {"mic", "line"}, p \in {700, 1000}, a \in {25, 95}}
          \cup {[op |-> "hold", b |-> 100, lv |-> 50, t |-> 60]} \cup {[op |-> o] : o \in {"lost", "back", "watch"}} \cup {[op |-> "end", s |-> "INT"]}
Few == \A x \in DOMAIN total : total[x] < 4
MCNext == \E in \in Inputs : /\ in.op = "client" => clients < 2
                             /\ in.op = "key" => Few
                             /\ Do(in)
View == state
\* ---- the property ----
Lines == act'.out.a
\* an impossible start ends, and does not do anything else
Impossible == [][act'.in.op = "run" /\ ~Runs(act'.in.c) => phase' = "over" /\ act'.out = [exit |-> 1]]_vars
\* the whole life is between the start and the signal
Alive == phase = "on" => conf # NoConf
Over == [][phase = "over" => FALSE]_vars
Keyed == act'.in.op = "key"
Announced == [][Keyed => \A i \in 1..Len(Lines) : \A j \in 1..Len(Lines[i]) :
                /\ Lines[i][j].c = act'.in.c /\ Lines[i][j].b = act'.in.b /\ Lines[i][j].de = conf.call
                /\ total'[<<act'.in.b, act'.in.c>>] > 2 /\ act'.in.lv > 0]_vars
AllAlike == [][Keyed => \A i, j \in 1..Len(Lines) : Lines[i] = Lines[j]]_vars
Rarely == [][Keyed /\ conf.every # 1 => \A i \in 1..Len(Lines) : Len(Lines[i]) < 2 /\ (<<act'.in.b, act'.in.c>> \in told => Lines[i] = <<>>)]_vars
NothingBelow == [][Keyed /\ act'.in.lv <= conf.thr /\ act'.in.b \notin listen => UNCHANGED state /\ \A i \in 1..Len(Lines) : Lines[i] = <<>>]_vars
Markers == [][Keyed => (~conf.listeners => act'.out.l = {}) /\ (~conf.spots => act'.out.s = {})]_vars
Silenced == [][act'.in.op = "quiet" => (listen' = {} \/ conf.sil > act'.in.t)]_vars
Ends == [][act'.in.op = "end" => phase' = "over" /\ act'.out.code = 0 /\ (unseen \/ (Tci /\ ~link) \/ act'.out.l = <<>>) /\ listen' = {}]_vars
\* nothing is heard without a device
Linked == [][act'.in.op # "run" /\ Tci /\ ~link => UNCHANGED told /\ (total' = total \/ total' = <<>>)]_vars
====
