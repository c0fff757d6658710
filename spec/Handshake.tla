----------------------------- MODULE Handshake -----------------------------
(* What the handshake carries.  A step is one or more clients connecting at   *)
(* the same time, each with the given handshake parameters; observed is       *)
(* everything the broker that got the connection and the client were sent.    *)
(* Concrete values (strings, numbers, texts) are named here ("S2" is the      *)
(* third sample of a long string, ...); the driver owns the tables.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Layouts, Ops, Deeps
VARIABLES cnt, ev, out, pre
core == <<cnt, pre>>
vars == <<cnt, ev, out, pre>>

\* Layouts: listener (p plain, s secure), then the farm in order of attempts:
\* p plain, x SEND-PROXY, t TLS, xt both, n DNS based, nx; a leading D marks one that is down
Farm == ("p/p" :> <<"p">>) @@ ("s/p" :> <<"p">>) @@ ("p/x" :> <<"x">>) @@ ("p/t" :> <<"t">>) @@ ("p/xt" :> <<"xt">>)
        @@ ("s/xt" :> <<"xt">>) @@ ("s/x" :> <<"x">>) @@ ("p/Dx,p" :> <<"Dx", "p">>) @@ ("p/Dp,x" :> <<"Dp", "x">>)
        @@ ("p/Dxt,p" :> <<"Dxt", "p">>) @@ ("s/Dt,x" :> <<"Dt", "x">>) @@ ("p/Dx,t" :> <<"Dx", "t">>)
        @@ ("p/n" :> <<"n">>) @@ ("p/nx" :> <<"nx">>) @@ ("s/nx" :> <<"nx">>)
Secure(p) == p \in {"s/p", "s/xt", "s/x", "s/Dt,x", "s/nx"}
Final(p) == Farm[p][Len(Farm[p])]
Proxied(p) == Final(p) \in {"x", "xt", "nx"}

InitAt(p) == pre = p /\ cnt = 0 /\ ev = [op |-> "Init"] /\ out = [who |-> <<>>]
Init == \E p \in Layouts : InitAt(p)

\* The property of the broker's Start-Ok for a client's Start-Ok
Reserved == {"amqpprox_client", "amqpprox_host"}
RECURSIVE Keep(_)
Keep(v) == IF v.t = "U" THEN [v EXCEPT !.t = "s"]
           ELSE IF v.t = "A" THEN [v EXCEPT !.v = [i \in DOMAIN v.v |-> Keep(v.v[i])]]
           ELSE IF v.t = "F" THEN [v EXCEPT !.v = [i \in DOMAIN v.v |-> [n |-> v.v[i].n, v |-> Keep(v.v[i].v)]]]
           ELSE IF v.t = "N" THEN [v EXCEPT !.v = Keep(@)]
           ELSE v
Given(ps) == LET own == SelectSeq(ps, LAMBDA p : p.n \notin Reserved)
             IN [i \in DOMAIN own |-> [n |-> own[i].n, v |-> Keep(own[i].v)]]

Seen(e, i) ==
  [before |-> IF Proxied(pre) THEN <<"proxy:" \o ToString(i)>> ELSE <<>>,   \* precedes TLS and AMQP
   br |-> <<"hdr", "startok", "tuneok", "open">>,
   props |-> Given(e.props), mech |-> e.mech, resp |-> e.resp, loc |-> e.loc, tune |-> e.tune, vh |-> e.vh,
   client |-> <<ToString(i) \o (IF Secure(pre) THEN " TLS" ELSE "")>>,      \* each field exactly once
   host |-> <<"listener,broker-port">>,
   early |-> <<"start", "tune">>,       \* the client before the broker's Open-Ok
   late |-> <<"openok", "beat">>,       \* and after it; the broker's heartbeat follows
   after |-> <<"beat">>]                \* the broker, when the client sends a heartbeat
Connect(e) == out' = [who |-> [i \in 1..e.clients |-> Seen(e, i)]]

\* A client that sends the broker's part of the handshake itself, once the broker has come so far:
\* it is disconnected or ignored, never served
Forge(e) == /\ \E gone \in {TRUE, FALSE} :
                 out' = [who |-> <<>>, early |-> <<"start", "tune">>, gone |-> gone,
                         br |-> CASE e.stage = 1 -> <<"hdr">> [] e.stage = 2 -> <<"hdr", "startok">>
                                  [] e.stage = 3 -> <<"hdr", "startok", "tuneok", "open">>]

Do(e) == /\ ev' = e /\ cnt' = cnt + 1 /\ pre' = pre
         /\ IF e.op = "Forge" THEN Forge(e) ELSE Connect(e)

\* ----- inputs -------------------------------------------------------------
LeafTypes == {"t", "b", "B", "s", "U", "u", "I", "i", "L", "l", "f", "d", "D", "S", "T", "V", "x"}
Leaves == {l \in [t : LeafTypes, i : 0..3] : (l.t = "t" => l.i < 2) /\ (l.t = "V" => l.i = 0)}
Names == {"n0", "n1", "n2", "n3", "n4", "n5"}
P(n, v) == [n |-> n, v |-> v]
Wrap(w, v) == CASE w = "" -> v
                [] w = "F" -> [t |-> "F", v |-> <<P("n0", v)>>]
                [] w = "A" -> [t |-> "A", v |-> <<v>>]
                [] w = "A2" -> [t |-> "A", v |-> <<v, [t |-> "S", i |-> 1], v>>]
                [] w = "FA" -> [t |-> "F", v |-> <<P("n1", [t |-> "A", v |-> <<v, v>>]), P("n0", v)>>]
                [] w = "AF" -> [t |-> "A", v |-> <<[t |-> "F", v |-> <<P("n0", v), P("n2", v)>>], v>>]
\* k levels of alternating tables and arrays around a value
Nest(k, v) == [t |-> "N", k |-> k, v |-> v]

Starts == {"s0", "s1", "s2", "s3"}
Tunes == {"t0", "t1", "t2", "t3"}
Oks == {"k0", "k1", "k2", "k3"}
Base == [op |-> "Connect", clients |-> 1, props |-> <<P("n0", [t |-> "S", i |-> 1])>>, mech |-> "m0", resp |-> "r1", loc |-> "l0",   \* eager: Start-Ok, Tune-Ok and Open at once
         tune |-> "t0", vh |-> "v0", seg |-> "whole", bseg |-> "whole", hdr |-> "091",
         bst |-> "s1", btu |-> "t0", bok |-> "k0"]     \* the broker's Start, Tune and Open-Ok

RECURSIVE RV(_, _)
RV(d, x) == LET k == RandomElement(0..(IF d = 0 THEN 6 ELSE 9)) IN
            IF k < 7 THEN RandomElement(Leaves)
            ELSE LET n == RandomElement(0..4) IN
                 IF k = 7 THEN [t |-> "A", v |-> [i \in 1..n |-> RV(d - 1, x)]]
                 ELSE [t |-> "F", v |-> [i \in 1..n |-> P(RandomElement(Names), RV(d - 1, x))]]
RP(x) == [i \in 1..RandomElement(0..8) |-> P(RandomElement(Names \cup {"amqpprox_client", "amqpprox_host", "caps"}), RV(4, x))]
Rnd(x) == [op |-> "Connect", clients |-> RandomElement({1, 1, 1, 2, 3}), props |-> RP(x), mech |-> RandomElement({"m0", "m1", "m2", "m3"}),
           resp |-> RandomElement({"r0", "r1", "r2", "r3"}), loc |-> RandomElement({"l0", "l1", "l2"}),
           tune |-> RandomElement({"t0", "t1", "t2", "t3"}), vh |-> RandomElement({"v0", "v1", "v2", "v3", "v4"}),
           seg |-> RandomElement({"whole", "bytes", "split", "split", "eager"}), bseg |-> RandomElement({"whole", "split", "bytes"}),
           hdr |-> RandomElement({"091", "091", "legacy"}),
           bst |-> RandomElement(Starts), btu |-> RandomElement(Tunes), bok |-> RandomElement(Oks)]

Inputs(op) ==
  CASE op = "Leaf" -> {[Base EXCEPT !.props = <<P(n, Wrap(w, v))>>, !.seg = "whole"] :
                          v \in Leaves, w \in {"", "F", "A", "A2", "FA", "AF"}, n \in {"n0"}}
    [] op = "Names" -> {[Base EXCEPT !.props = <<P(a, [t |-> "I", i |-> 1]), P(b, [t |-> "V", i |-> 0]), P(a, [t |-> "t", i |-> 1])>>] :
                          a \in Names, b \in Names}
    [] op = "Deep" -> {[Base EXCEPT !.props = <<P("n0", Nest(k, [t |-> "I", i |-> 2])), P("n1", Nest(k, [t |-> "S", i |-> 1]))>>] : k \in Deeps}
    [] op = "Args" -> {[Base EXCEPT !.mech = m, !.resp = r] : m \in {"m0", "m1", "m2", "m3"}, r \in {"r0", "r1", "r2", "r3"}}
                      \cup {[Base EXCEPT !.loc = l, !.vh = v, !.tune = t] : l \in {"l0", "l1", "l2"},
                                v \in {"v0", "v1", "v2", "v3", "v4"}, t \in {"t0", "t1", "t2", "t3"}}
    [] op = "Seg" -> {[Base EXCEPT !.seg = s, !.bseg = b, !.hdr = h, !.clients = n] :
                          s \in {"whole", "bytes", "split", "eager"}, b \in {"whole", "bytes", "split"}, h \in {"091", "legacy"}, n \in 1..3}
    [] op = "Broker" -> {[Base EXCEPT !.bst = s, !.btu = u, !.bok = k, !.tune = t, !.bseg = g] : s \in Starts, u \in Tunes, k \in Oks, t \in {"t0", "t1"}, g \in {"whole", "split"}}
    [] op = "Own" -> {[Base EXCEPT !.props = ps, !.clients = n] :
                          n \in 1..2,
                          ps \in {<<P(a, v)>> : a \in Reserved, v \in {[t |-> "S", i |-> 1], [t |-> "I", i |-> 0], [t |-> "F", v |-> <<>>]}}
                              \cup {<<P(a, [t |-> "S", i |-> 1]), P("n0", [t |-> "S", i |-> 1]), P(a, [t |-> "S", i |-> 2]), P(b, [t |-> "S", i |-> 2])>> :
                                       a \in Reserved, b \in Reserved}}
    [] op = "Big" -> {[Base EXCEPT !.props = [i \in 1..n |-> P("n" \o ToString(i % 6), v)]] :
                          n \in {0, 1, 100, 700}, v \in {[t |-> "S", i |-> 1], [t |-> "V", i |-> 0]}}
                     \cup {[Base EXCEPT !.props = <<P("n0", [t |-> t, i |-> i])>>] : t \in {"S", "x"}, i \in {4, 5}}
    [] op = "Forge" -> {[op |-> "Forge", stage |-> s, m |-> m] : s \in 1..3, m \in {"start", "tune", "openok", "all", "closeok"}}
    [] op = "Rnd" -> {Rnd(cnt)}
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars

Matches(o) == o = out'
Class == <<ev', pre>>
Once == cnt <= 1

\* C02/C19 on the specification: what the transformation keeps and adds
RECURSIVE Types(_)
Types(v) == {v.t} \cup (IF v.t = "A" THEN UNION {Types(v.v[i]) : i \in DOMAIN v.v}
                        ELSE IF v.t = "F" THEN UNION {Types(v.v[i].v) : i \in DOMAIN v.v}
                        ELSE IF v.t = "N" THEN Types(v.v) ELSE {})
C02 == ev.op = "Connect" => \A i \in DOMAIN out.who :
         LET w == out.who[i] IN
         /\ Len(w.props) = Cardinality({j \in DOMAIN ev.props : ev.props[j].n \notin Reserved})
         /\ \A j \in DOMAIN w.props : w.props[j].n \notin Reserved /\ "U" \notin Types(w.props[j].v)
         /\ <<w.mech, w.resp, w.loc, w.tune, w.vh>> = <<ev.mech, ev.resp, ev.loc, ev.tune, ev.vh>>
C19 == ev.op = "Connect" => /\ \A i, j \in DOMAIN out.who : i # j => out.who[i].client # out.who[j].client
                            /\ \A i \in DOMAIN out.who : Len(out.who[i].before) = (IF Proxied(pre) THEN 1 ELSE 0)
                                                         /\ Len(out.who[i].client) = 1 /\ Len(out.who[i].host) = 1
=============================================================================
