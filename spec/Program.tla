-------------------------------- MODULE Program --------------------------------
(* The program as it is started from the command line, with its SDR device or its *)
(* audio server, its telnet clients, its output, and the signals that end it.      *)
EXTENDS Integers, Sequences, TLC
VARIABLES phase,    \* "off": not started, "on": running, "over": ended
          conf,     \* what the command line says
          clients,  \* the number of telnet clients
          total,    \* how often each callsign was heard by the listeners so far: <<bin, call>> :> count
          listen,   \* the bins with a listener
          left,     \* the bins that were left by their listener
          told,     \* what was announced: <<bin, call>>
          shown,    \* the callsigns on the display, with their bins: <<call, bin>>
          vfo,      \* the bin of the VFO
          unseen,   \* the device is not, or no longer, to be asked for what it was told
          link,     \* the device is connected
          act
vars == <<phase, conf, clients, total, listen, left, told, shown, vfo, unseen, link, act>>
state == <<phase, conf, clients, total, listen, left, told, shown, vfo, unseen, link>>
NoConf == [cmd |-> "none"]
Init0 == /\ phase = "off" /\ conf = NoConf /\ clients = 0 /\ total = <<>> /\ listen = {} /\ left = {} /\ told = {} /\ shown = {} /\ vfo = 0 /\ unseen = FALSE /\ link = FALSE
         /\ act = [in |-> [op |-> "init"], out |-> 0]
Out(in, o) == act' = [in |-> in, out |-> o]
Strain == conf.cmd = "strain"
Tci == conf.src = "tci"
\* ---- the start ----
\* a TCI device that is absent may appear later
Connects(c) == c.fault = "none"
Runs(c) == c.fault = "none" \/ (c.fault = "absent" /\ c.src = "tci")
Digits(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
KHz(f) == ToString(f \div 1000) \o "." \o Digits(f % 1000)
SourceOf(c) == IF c.source = "" THEN "mic" ELSE c.source
RateOf(s) == CASE s = "mic" -> "44100" [] s = "line" -> "48000" [] s = "mon" -> "22050"
Hello(c) == IF ~Connects(c) \/ c.hasty THEN <<>>
            ELSE CASE c.src = "tci" -> <<"iq_samplerate:48000", "iq_start:" \o ToString(c.trx)>>
                   [] c.src = "kiwi" -> <<"auth t=kiwi p=" \o c.pw, "ident_user=" \o c.user,
                                          "mod=iq low_cut=-" \o ToString(c.bw \div 2) \o " high_cut=" \o ToString(c.bw \div 2) \o " freq=" \o KHz(c.center)>>
                   [] c.src = "pulse" -> <<SourceOf(c), RateOf(SourceOf(c))>>
Run(in) == /\ phase = "off" /\ conf' = in.c /\ phase' = (IF Runs(in.c) THEN "on" ELSE "over") /\ vfo' = in.c.vfo /\ unseen' = in.c.hasty /\ link' = Connects(in.c)
           /\ UNCHANGED <<clients, total, listen, left, told, shown>>
           /\ Out(in, IF Runs(in.c) THEN [telnet |-> in.c.cmd = "strain", scope |-> in.c.scope, hello |-> Hello(in.c), ended |-> FALSE] ELSE [exit |-> 1])
\* ---- signals ----
Count(b, c) == IF <<b, c>> \in DOMAIN total THEN total[<<b, c>>] ELSE 0
Rest(f, S) == [x \in {k \in DOMAIN f : k[1] \notin S} |-> f[x]]
\* the first two times are not enough
Spotted(old, new) == new - (IF old > 2 THEN old ELSE 2)
Times(x, n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> x]
Key(in) ==
  LET b == in.b
      attached == b \in listen \/ (in.lv > conf.thr /\ b \notin left)
      decoded == attached /\ conf.deb = 1
      old == Count(b, in.c)
      new == old + in.n
      spots == IF decoded /\ Spotted(old, new) > 0 THEN Spotted(old, new) ELSE 0
      \* within this step all spots are closer together than any but the shortest period
      lines == IF spots = 0 THEN 0 ELSE IF conf.every = 1 THEN spots ELSE IF <<b, in.c>> \in told THEN 0 ELSE 1
      stdout == Tci
  IN /\ listen' = IF attached THEN listen \cup {b} ELSE listen
     /\ total' = IF decoded THEN (<<b, in.c>> :> new) @@ total ELSE total
     /\ told' = IF spots > 0 THEN told \cup {<<b, in.c>>} ELSE told
     /\ shown' = IF spots > 0 /\ conf.spots THEN {x \in shown : x[1] # in.c} \cup {<<in.c, b>>} ELSE shown
     /\ UNCHANGED <<phase, conf, clients, left, vfo, unseen, link>>
     /\ act' = [in |-> in, out |-> [on |-> IF stdout /\ attached /\ b \notin listen THEN <<b>> ELSE <<>>,
                                    heard |-> IF stdout /\ decoded THEN [i \in 1..in.n |-> [b |-> b, c |-> in.c, n |-> old + i]] ELSE <<>>,
                                    spotted |-> IF stdout THEN Times([b |-> b, c |-> in.c], spots) ELSE <<>>,
                                    off |-> <<>>,
                                    a |-> [i \in 1..clients |-> Times([de |-> conf.call, b |-> b, c |-> in.c], lines)],
                                    l |-> IF conf.listeners THEN listen' ELSE {}, s |-> shown', ended |-> FALSE]]
\* nothing is heard for some time
Quiet(in) ==
  LET gone == IF conf.sil <= in.t THEN listen ELSE {} IN
  /\ listen' = listen \ gone /\ left' = left \cup gone /\ total' = Rest(total, gone)
  /\ UNCHANGED <<phase, conf, clients, told, shown, vfo, unseen, link>>
  /\ act' = [in |-> in, out |-> [off |-> IF Tci THEN {[b |-> b, t |-> "in time"] : b \in gone} ELSE {},
                                 l |-> IF conf.listeners THEN listen' ELSE {}, s |-> shown, ended |-> FALSE]]
\* a signal that never ends
Hold(in) == /\ listen = {} /\ in.b \notin left /\ conf.busy = in.t /\ conf.sil > conf.busy
            /\ UNCHANGED state
            /\ Out(in, [left |-> IF in.lv > conf.thr THEN "in time" ELSE "never on"])
\* many signals at once, for some time: nothing is said about what comes of it
Bustle(in) == unseen' = (unseen \/ in.deaf) /\ UNCHANGED <<phase, conf, clients, total, listen, left, told, shown, vfo, link>> /\ Out(in, [ended |-> FALSE])
\* ---- the connection ----
Lost(in) == /\ phase = "on" /\ Tci /\ link /\ link' = FALSE
            /\ UNCHANGED <<phase, conf, clients, total, listen, left, told, shown, vfo, unseen>> /\ Out(in, [ended |-> FALSE])
\* the device is connected again, or for the first time; what was heard and shown is not forgotten
Back(in) == /\ phase = "on" /\ Tci /\ ~link /\ link' = TRUE
            /\ UNCHANGED <<phase, conf, clients, total, listen, left, told, shown, vfo, unseen>>
            /\ Out(in, [hello |-> <<"iq_samplerate:48000", "iq_start:" \o ToString(conf.trx)>>, ended |-> FALSE])
\* ---- the end ----
End(in) == /\ phase = "on" /\ phase' = "over" /\ listen' = {} /\ total' = <<>> /\ UNCHANGED <<conf, clients, left, told, shown, vfo, unseen, link>>
           /\ Out(in, IF unseen \/ (Tci /\ ~link) THEN [code |-> 0, gone |-> TRUE, telnet |-> FALSE, scope |-> FALSE] ELSE
                      [code |-> 0, gone |-> TRUE, stop |-> IF Tci THEN <<"iq_stop:" \o ToString(conf.trx)>> ELSE <<>>,
                       l |-> <<>>, telnet |-> FALSE, scope |-> FALSE, debug |-> conf.debug])
Do(in) ==
  CASE in.op = "run" -> Run(in)
    [] in.op = "client" -> /\ phase = "on" /\ Strain /\ clients' = clients + 1 /\ Out(in, [said |-> "welcome"])
                           /\ UNCHANGED <<phase, conf, total, listen, left, told, shown, vfo, unseen, link>>
    [] in.op = "watch" -> \* a client of the scope server sees the spectrum of the device
                          /\ phase = "on" /\ conf.scope /\ link /\ UNCHANGED state
                          /\ IF conf.src = "pulse" THEN Out(in, [done |-> TRUE])
                             ELSE IF ~Strain THEN Out(in, [values |-> 512])
                             \* the server drops a client that is slower than the frames of the listeners come
                             ELSE \/ listen # {} /\ Out(in, [slow |-> TRUE])
                                  \/ \E b \in (IF listen = {} THEN {-1} ELSE listen) : Out(in, [values |-> 512, signal |-> b])
    [] in.op = "key" -> phase = "on" /\ Strain /\ link /\ Key(in)
    [] in.op = "quiet" -> phase = "on" /\ Strain /\ link /\ Quiet(in)
    [] in.op = "hold" -> phase = "on" /\ Strain /\ link /\ Hold(in)
    [] in.op = "bustle" -> phase = "on" /\ Bustle(in)
    [] in.op = "lost" -> Lost(in)
    [] in.op = "back" -> Back(in)
    [] in.op = "tune" -> /\ phase = "on" /\ ~Strain /\ Tci /\ link /\ vfo' = in.b /\ Out(in, [done |-> TRUE])
                         /\ UNCHANGED <<phase, conf, clients, total, listen, left, told, shown, unseen, link>>
    [] in.op = "text" -> /\ phase = "on" /\ ~Strain /\ Tci /\ link /\ UNCHANGED state
                         /\ Out(in, [printed |-> in.b = vfo /\ conf.deb = 1, ended |-> FALSE])
    [] in.op = "sound" -> /\ phase = "on" /\ ~Strain /\ conf.src = "pulse" /\ UNCHANGED state
                          /\ Out(in, [printed |-> /\ in.src = SourceOf(conf) /\ in.pitch = conf.pitch /\ conf.deb = 1
                                                  /\ (conf.scale = 0 \/ in.amp * conf.scale >= conf.mag * 100),
                                      ended |-> FALSE])
    [] in.op = "end" -> End(in)
=============================================================================
