-------------------------------- MODULE KiwiMsg --------------------------------
(* What the KiwiSDR client makes of the messages of the server.                  *)
(* A MSG is a sequence of parts [k |-> key, v |-> value as character codes]; a   *)
(* SND has a number of header bytes, samples and perhaps an odd byte at the end. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES first,   \* the first valid audio rate, 0 if there was none
          rate,    \* the latest valid audio rate
          ended,   \* the connection was ended
          got,     \* the samples that were delivered
          act
vars == <<first, rate, ended, got, act>>
Init0 == first = 0 /\ rate = 0 /\ ended = FALSE /\ got = <<>> /\ act = [in |-> [op |-> "init"], out |-> <<>>]
Out(in, o) == act' = [in |-> in, out |-> o]
HeaderSize == 17
RECURSIVE Number(_, _)
Number(v, n) == IF v = <<>> THEN n ELSE Number(Tail(v), 10 * n + Head(v) - 48)
\* the value of a rate; 0 if it is not a positive number
Rate(v) == IF v # <<>> /\ Len(v) <= 9 /\ (\A x \in DOMAIN v : v[x] \in 48..57) THEN Number(v, 0) ELSE 0
Rejects(p) == p.k \in {"too_busy", "badp", "down"} /\ p.v = <<49>>
\* a part that is malformed; the rest of its message may be ignored with it
Bad(p) == (p.k = "audio_rate" /\ Rate(p.v) = 0) \/ (p.k = "load_cfg" /\ 37 \in {p.v[x] : x \in DOMAIN p.v})
Upto(parts, S) == IF S = {} THEN parts ELSE SubSeq(parts, 1, CHOOSE x \in S : \A y \in S : x <= y)
\* the parts that take effect
Effective(parts) == LET r == Upto(parts, {x \in DOMAIN parts : Rejects(parts[x])})
                    IN {r, Upto(r, {x \in DOMAIN r : Bad(r[x])})}
RatesOf(parts) == SelectSeq(parts, LAMBDA p : p.k = "audio_rate" /\ Rate(p.v) > 0)
Ev(k, r, s) == [k |-> k, rate |-> r, s |-> s]
Do(in) ==
  CASE in.op = "msg" ->
         IF ended THEN UNCHANGED <<first, rate, ended, got>> /\ Out(in, <<>>)
         ELSE \E parts \in Effective(in.parts) :
                LET rs == RatesOf(parts)
                    new == IF rs = <<>> THEN rate ELSE Rate(rs[Len(rs)].v)
                    over == \E x \in DOMAIN parts : Rejects(parts[x])
                IN /\ rate' = new /\ ended' = over /\ got' = got
                   /\ first' = IF first = 0 THEN new ELSE first
                   /\ IF first = 0 /\ new # 0
                      THEN \/ Out(in, <<Ev("rate", new, <<>>)>>)
                           \/ over /\ Out(in, <<>>)
                      ELSE Out(in, <<>>)
    [] in.op = "snd" ->
         /\ UNCHANGED <<first, rate, ended>>
         /\ LET sound == ~ended /\ rate # 0 /\ in.header = HeaderSize
                odd == in.odd \/ Len(in.s) % 2 = 1 \/ in.s = <<>>
            IN \/ sound /\ got' = Append(got, in.s) /\ \E r \in {first, rate} : Out(in, <<Ev("data", r, in.s)>>)
               \/ (~sound \/ odd) /\ got' = got /\ Out(in, <<>>)
    [] in.op = "junk" -> \* no message of the protocol
         UNCHANGED <<first, rate, ended, got>> /\ Out(in, <<>>)
    [] in.op = "again" -> \* looks at samples that were delivered before
         /\ in.n \in DOMAIN got /\ UNCHANGED <<first, rate, ended, got>> /\ Out(in, <<Ev("data", 0, got[in.n])>>)
    [] in.op = "closed" ->
         /\ UNCHANGED <<first, rate, ended, got>> /\ Out(in, IF ended THEN <<Ev("closed", 0, <<>>)>> ELSE <<>>)
==============================================================================
