---- MODULE MC_HostArg ----
EXTENDS HostArg, TLC, Json
CONSTANT Ops
Given == {"radio", "radiosix", "sub.domain-1.example.com", "localhost", "192.0.2.1", "127.0.0.1", "[::1]", "[2001:db8::9]",
          "[2001:db8:1:2:3:4:5:6]", "[fe80::1%lo]", "[::ffff:192.0.2.3]", "nowhere", "10.0.0.256", ""}
Defaults == {"localhost", "192.0.2.1", "radiosix", "::1", "2001:db8::9", "nowhere"}
Ports == {<<>>, <<"1">>, <<"8", "0">>, <<"0", "8", "0">>, <<"8", "0", "7", "3">>, <<"6", "5", "5", "3", "5">>, <<"6", "5", "5", "3", "6">>,
          <<"0", "0", "0", "6", "5", "5", "3", "5">>, <<"1", "0", "0", "0", "0", "0">>, <<"7", "0", "0", "0", "0">>,
          <<"4", "2", "9", "4", "9", "6", "7", "3", "7", "6">>,
          <<"1", "8", "4", "4", "6", "7", "4", "4", "0", "7", "3", "7", "0", "9", "5", "5", "1", "6", "9", "6">>,
          <<"a", "b", "c">>, <<"h", "t", "t", "p">>, <<"-", "1">>, <<"+", "8", "0">>, <<" ", "8", "0">>, <<"8", "0", " ">>, <<"8", "o">>,
          <<"0", "x", "5", "0">>, <<"8", "_", "0">>, <<"1", ".", "0">>, <<"1", "e", "3">>, <<"/">>}
\* the TCI library does not connect to IPv6 addresses
Allowed(in) == in.op = "tci" => ~IsSix(IF in.h = "" THEN "" ELSE Address(in.h))
Inputs == {in \in {[op |-> "parse", h |-> h, p |-> p, dh |-> dh, dp |-> dp] : h \in Given, p \in Ports, dh \in Defaults, dp \in {1, 40001}}
                  \cup {[op |-> o, h |-> h, p |-> p] : o \in {"kiwi", "tci"}, h \in Given, p \in Ports} :
             in.op \in Ops /\ Allowed(in)}
MCNext == act.in.op = "init" /\ \E in \in Inputs : Do(in)
View == 0
Emit == PrintT("EDGE " \o ToJson([s |-> 0, i |-> act'.in, o |-> act'.out, t |-> 0]))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT 0")
\* ---- the property ----
Seen == act.in.op # "init"
GivenHost == (Seen /\ act.in.h # "" /\ act.out # Error) => act.out.addr = Address(act.in.h)
GivenPort == (Seen /\ act.in.p # <<>> /\ act.out # Error) => \A i \in 1..Len(act.in.p) : act.in.p[i] \in Digits
InRange == Seen => act.out.port \in 0..65535
NoSilentDefault == (Seen /\ act.in.p # <<>> /\ act.out.port \in {8073, 40001}) => act.in.p \in {<<"8", "0", "7", "3">>, <<"4", "0", "0", "0", "1">>}
MissingPort == (Seen /\ act.in.p = <<>> /\ act.out # Error) =>
                 act.out.port = (IF act.in.op = "parse" THEN act.in.dp ELSE IF act.in.op = "kiwi" THEN 8073 ELSE 40001)
MissingHost == (Seen /\ act.in.h = "" /\ act.out # Error) =>
                 act.out.addr = (IF act.in.op = "parse" THEN DefaultAddress(act.in.dh) ELSE "127.0.0.1")
====
