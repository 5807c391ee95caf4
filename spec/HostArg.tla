------------------------------- MODULE HostArg -------------------------------
(* Host arguments (cli.ParseTCPAddrArg) and where the clients connect to.     *)
(* An argument is a host, which may be missing, and an optional port, given   *)
(* as the characters behind the colon.                                        *)
EXTENDS Integers, Sequences

VARIABLES act
vars == <<act>>

\* the hosts that are known: how they are written in an argument and their address.
\* "radio" and "radiosix" are names, "nowhere" and "10.0.0.256" are names that nobody knows.
Address(h) ==
  CASE h = "radio" -> "192.0.2.7"
    [] h = "radiosix" -> "2001:db8::7"
    [] h = "sub.domain-1.example.com" -> "192.0.2.8"
    [] h = "localhost" -> "127.0.0.1"
    [] h = "192.0.2.1" -> "192.0.2.1"
    [] h = "127.0.0.1" -> "127.0.0.1"
    [] h = "[::1]" -> "::1"
    [] h = "[2001:db8::9]" -> "2001:db8::9"
    [] h = "[2001:db8:1:2:3:4:5:6]" -> "2001:db8:1:2:3:4:5:6"
    [] h = "[fe80::1%lo]" -> "fe80::1%lo"
    [] h = "[::ffff:192.0.2.3]" -> "192.0.2.3"
    [] OTHER -> ""
\* a default host is not an argument: there is no need for brackets
DefaultAddress(h) ==
  CASE h = "::1" -> "::1"
    [] h = "2001:db8::9" -> "2001:db8::9"
    [] OTHER -> Address(h)

IsSix(a) == a \in {"::1", "2001:db8::7", "2001:db8::9", "2001:db8:1:2:3:4:5:6", "fe80::1%lo"}

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Digit(c) == CHOOSE d \in 0..9 : c = <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[d + 1]

RECURSIVE Value(_, _)
\* no number grows beyond 100000, which is out of range already
Value(p, v) == IF p = <<>> THEN v
               ELSE LET w == 10 * v + Digit(Head(p)) IN Value(Tail(p), IF w > 100000 THEN 100000 ELSE w)

\* -1: there is no valid port
Port(p, default) == IF p = <<>> THEN default
                    ELSE IF \E i \in 1..Len(p) : p[i] \notin Digits THEN -1
                    ELSE LET v == Value(p, 0) IN IF v > 65535 THEN -1 ELSE v

Error == [addr |-> "", port |-> 0]
Parsed(h, p, dh, dp) ==
  LET a == IF h = "" THEN DefaultAddress(dh) ELSE Address(h)
      n == Port(p, dp)
  IN IF a = "" \/ n = -1 THEN Error ELSE [addr |-> a, port |-> n]

\* op parse: the argument alone; kiwi, tci: the address that is dialled. Port 0 is left open for those.
Do(in) ==
  act' = [in |-> in,
          out |-> CASE in.op = "parse" -> Parsed(in.h, in.p, in.dh, in.dp)
                    [] in.op = "kiwi" -> Parsed(in.h, in.p, "localhost", 8073)
                    [] in.op = "tci" -> Parsed(in.h, in.p, "localhost", 40001)]
Init == act = [in |-> [op |-> "init"], out |-> Error]
=============================================================================
