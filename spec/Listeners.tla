----------------------------- MODULE Listeners -----------------------------
(* Listening ports, TLS on either leg, and what the TLS settings demand.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ports, Cons, Seqs, \* ports; connections that stay; how many commands may come in one go
          Helds,             \* may commands arrive while the proxy is busy
          Routes,            \* to a backend (plain, tls) or to a farm one of whose members is down (p: plain, t: TLS; the one that is down first)
          Ops, Pres
VARIABLES lst, other,     \* what each port is, ports other programs listen on
          iv, xv,         \* what clients and brokers must show
          ic, xc,         \* the certificates shown to clients and to brokers
          con,            \* established connections
          ev, out, pre
core == <<lst, other, iv, xv, ic, xc, con, pre>>
vars == <<lst, other, iv, xv, ic, xc, con, ev, out, pre>>

InitAt(p) == /\ pre = p /\ lst = [x \in Ports |-> "off"] /\ other = {} /\ iv = "none" /\ xv = "none" /\ con = {}
             /\ ic = (IF p = "nocert" THEN "none" ELSE "good") /\ xc = "none"
             /\ ev = [op |-> "Init"] /\ out = [ports |-> [x \in Ports |-> "off"], alive |-> {}, res |-> "", clear |-> FALSE, shown |-> ""]
Init == \E p \in Pres : InitAt(p)

Seen(l, o) == [p \in Ports |-> IF p \in o THEN "other" ELSE l[p]]
SayC(res, shown) == out' = [ports |-> Seen(lst', other'), alive |-> con', res |-> res, clear |-> FALSE, shown |-> shown]
Say0(res) == SayC(res, "")

Names == {"START", "START_SECURE", "STOP"}
Single == (Names \X Ports) \cup {<<"STOP", 0>>}
One(l, c) ==
  CASE c \notin Single -> l       \* malformed
    [] c[1] = "START" -> IF l[c[2]] = "off" /\ c[2] \notin other THEN [l EXCEPT ![c[2]] = "plain"] ELSE l
    [] c[1] = "START_SECURE" -> IF l[c[2]] = "off" /\ c[2] \notin other THEN [l EXCEPT ![c[2]] = "tls"] ELSE l
    [] c[1] = "STOP" -> IF c[2] = 0 THEN [p \in Ports |-> "off"] ELSE [l EXCEPT ![c[2]] = "off"]
    [] OTHER -> l
RECURSIVE Apply(_, _)
Apply(l, cs) == IF cs = <<>> THEN l ELSE Apply(One(l, Head(cs)), Tail(cs))
\* Stopping ports ends no connection
Cmds(e) == lst' = Apply(lst, e.cs) /\ UNCHANGED <<other, iv, xv, ic, xc, con>> /\ Say0("")
Occupy(e) == /\ lst[e.p] = "off" /\ other' = (IF e.p \in other THEN other \ {e.p} ELSE other \cup {e.p})
             /\ UNCHANGED <<lst, iv, xv, ic, xc, con>> /\ Say0("")
Verify(e) == /\ IF e.d = "INGRESS" THEN iv' = e.m /\ UNCHANGED xv ELSE xv' = e.m /\ UNCHANGED iv
             /\ UNCHANGED <<lst, other, ic, xc, con>> /\ Say0("")

\* A certificate that cannot be read is reported and changes nothing
Cert(e) == /\ IF e.f = "missing" THEN UNCHANGED <<ic, xc>> ELSE IF e.d = "INGRESS" THEN ic' = e.f /\ UNCHANGED xc ELSE xc' = e.f /\ UNCHANGED ic
           /\ UNCHANGED <<lst, other, iv, xv, con>> /\ Say0(IF e.f = "missing" THEN "error" ELSE "")
HasCert == ic # "none"
ClientOk(e) ==
  IF lst[e.p] = "plain" THEN ~e.tls
  ELSE e.tls /\ HasCert /\ (CASE iv = "none" -> TRUE [] iv = "PEER" -> e.cc # "bad" [] OTHER -> e.cc = "good")
IsTls(v) == v \in {"tls", "pt", "tt"}
BrokerOk(e) == IF ~IsTls(e.v) THEN e.bk = "plain"
               ELSE CASE e.bk = "plain" -> FALSE [] e.bk = "good" -> TRUE [] e.bk = "strict" -> xc = "good" [] OTHER -> xv = "none"
Conn(e) ==
  /\ e.c \notin con /\ e.p \notin other
  /\ LET r == IF lst[e.p] = "off" THEN "refused" ELSE IF ClientOk(e) /\ BrokerOk(e) THEN "open" ELSE "no" IN
     /\ con' = (IF r = "open" THEN con \cup {e.c} ELSE con)
     /\ UNCHANGED <<lst, other, iv, xv, ic, xc>> /\ SayC(r, IF r = "open" /\ e.tls THEN ic ELSE "")
Close(e) == e.c \in con /\ con' = con \ {e.c} /\ UNCHANGED <<lst, other, iv, xv, ic, xc>> /\ Say0("")

Bad == {<<"START", 70000>>, <<"START", -1>>, <<"START_SECURE", 0>>, <<"STOP", 70000>>, <<"STOP", -1>>, <<"RESTART", CHOOSE p \in Ports : TRUE>>}
Inputs(op) ==
  CASE op \in {"Cmd", "Cmd2"} -> [op : {"Cmds"}, cs : {<<c>> : c \in Single}, held : {FALSE}]
    [] op = "Burst" -> UNION {[op : {"Cmds"}, cs : [1..n -> Single], held : Helds] : n \in Seqs}
    [] op = "Same" -> {[op |-> "Cmds", cs |-> <<<<a, p>>, <<b, p>>, <<c, p>>>>, held |-> h] : a \in Names, b \in Names, c \in Names, p \in Ports, h \in Helds}
    [] op = "Bad" -> [op : {"Cmds"}, cs : {<<c>> : c \in Bad}, held : {FALSE}]
    [] op = "Occupy" -> [op : {"Occupy"}, p : Ports]
    [] op = "Verify" -> [op : {"Verify"}, d : {"INGRESS"}, m : {"none", "PEER", "PEER FAIL_IF_NO_PEER_CERT"}] \cup [op : {"Verify"}, d : {"EGRESS"}, m : {"none", "PEER"}]
    [] op = "Cert" -> [op : {"Cert"}, d : {"INGRESS", "EGRESS"}, f : {"good", "bad", "missing"}]
    [] op \in {"Conn", "Conn2", "Conn3"} -> [op : {"Conn"}, c : Cons, p : Ports, tls : {TRUE}, cc : {"none", "good", "bad"}, v : Routes, bk : {"plain", "good", "bad", "strict"}]
                           \cup [op : {"Conn"}, c : Cons, p : Ports, tls : {FALSE}, cc : {"none"}, v : Routes, bk : {"plain", "good", "bad", "strict"}]
    [] op = "Close" -> [op : {"Close"}, c : Cons]
    [] OTHER -> {}
Do(e) ==
  /\ CASE e.op = "Cmds" -> Cmds(e) [] e.op = "Occupy" -> Occupy(e) [] e.op = "Verify" -> Verify(e) [] e.op = "Cert" -> Cert(e) [] e.op = "Conn" -> Conn(e) [] OTHER -> Close(e)
  /\ ev' = e /\ UNCHANGED pre
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
Class == IF ev'.op = "Conn" THEN <<ev', lst[ev'.p], iv, xv, ic, xc>> ELSE IF ev'.op = "Cmds" THEN <<ev', lst, other # {}>> ELSE <<ev', lst>>

\* The port belongs to the proxy from an effective START until a STOP of it, with the kind of that START
C14 == [][/\ \A p \in Ports : lst[p] # "off" /\ lst'[p] = "off" => ev'.op = "Cmds" /\ \E i \in DOMAIN ev'.cs : ev'.cs[i][1] = "STOP" /\ ev'.cs[i][2] \in {0, p}
          /\ \A p \in Ports : lst'[p] # lst[p] /\ lst'[p] # "off" =>
               \E i \in DOMAIN ev'.cs : /\ ev'.cs[i] = <<IF lst'[p] = "tls" THEN "START_SECURE" ELSE "START", p>>
                                        /\ \A j \in DOMAIN ev'.cs : j > i => ~(ev'.cs[j][1] = "STOP" /\ ev'.cs[j][2] \in {0, p})
          /\ other \cap {p \in Ports : lst'[p] # "off"} = {}
          /\ (ev'.op # "Close" => con \subseteq con')]_vars
\* Nobody gets through without what the settings demand of both peers
C20 == [][ev'.op = "Conn" /\ out'.res = "open" =>
            /\ lst[ev'.p] = (IF ev'.tls THEN "tls" ELSE "plain")
            /\ (ev'.tls /\ iv # "none" => ev'.cc # "bad") /\ (ev'.tls /\ iv \notin {"none", "PEER"} => ev'.cc = "good")
            /\ (IsTls(ev'.v) => ev'.bk # "plain") /\ (IsTls(ev'.v) /\ xv # "none" => ev'.bk # "bad")
            /\ (IsTls(ev'.v) /\ ev'.bk = "strict" => xc = "good")]_vars

Matches(o) == /\ "died" \notin DOMAIN o /\ o.res = out'.res /\ o.clear = FALSE /\ o.shown = out'.shown
              /\ {o.alive[i] : i \in DOMAIN o.alive} = out'.alive
              /\ \A i \in DOMAIN o.ports : out'.ports[o.ports[i][1]] = o.ports[i][2]
=============================================================================
