---- MODULE MC_KiwiMsg ----
EXTENDS KiwiMsg, TLC, Json
MCInit == Init0
MaxGot == 2
P(k, v) == [k |-> k, v |-> v]
R12 == <<49, 50, 48, 48, 48>>
R8 == <<56, 48, 48, 48>>
Parts == {P("audio_rate", v) : v \in {R12, R8, <<48>>, <<45, 49>>, <<120>>, <<>>, R8 \o <<46, 53>>}}
         \cup {P(k, v) : k \in {"too_busy", "badp", "down"}, v \in {<<49>>, <<48>>, <<>>}}
         \cup {P("load_cfg", <<37, 122, 122>>), P("name", R12), P("audio", R8), P("", R8)}
Pairs == {<<p, q>> : p \in {P("name", R12), P("load_cfg", <<37, 122, 122>>), P("down", <<49>>), P("down", <<48>>), P("audio_rate", <<120>>)},
                     q \in {P("audio_rate", R12), P("too_busy", <<49>>)}} \cup {<<P("audio_rate", R8), P("badp", <<49>>)>>}
Inputs == {[op |-> "msg", parts |-> <<p>>] : p \in Parts} \cup {[op |-> "msg", parts |-> pq] : pq \in Pairs} \cup {[op |-> "msg", parts |-> <<>>]}
          \cup {[op |-> "snd", header |-> h, s |-> <<>>, odd |-> FALSE] : h \in {0, 1, 16}}
          \cup {[op |-> "snd", header |-> 17, s |-> s, odd |-> o] : s \in {<<>>, <<5>>, <<7, -1>>, <<32767, -32768, 0, 300>>}, o \in (IF Len(got) < MaxGot \/ ended \/ first = 0 THEN BOOLEAN ELSE {})}
          \cup {[op |-> "junk", kind |-> k] : k \in {"empty", "short", "W/F", "EXT", "tag", "text", "textmsg", "ping"}}
          \cup {[op |-> "closed"]} \cup {[op |-> "again", n |-> x] : x \in DOMAIN got}
MCNext == \E in \in Inputs : Do(in)
View == <<first, rate, ended, got>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- C25 ----
Once == [][act'.out # <<>> /\ act'.out[1].k = "rate" => first = 0 /\ first' = act'.out[1].rate /\ first' > 0]_vars
FirstStays == [][first # 0 => first' = first]_vars
NoSoundBefore == [][act'.in.op = "snd" /\ act'.out # <<>> => first # 0 /\ ~ended]_vars
Kept == [][Len(got') >= Len(got) /\ SubSeq(got', 1, Len(got)) = got]_vars
Rejected == [][ended => ended']_vars
====
