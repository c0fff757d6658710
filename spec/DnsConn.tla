------------------------------ MODULE DnsConn ------------------------------
(* Connections through name-based backends: which lookups are made, which     *)
(* addresses are attempted in which order, and where the client ends up.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Addrs, Lists, Steps, Ops, Pres
VARIABLES tab,        \* what a lookup of a name gives (<<>>: it fails)
          up,         \* <<address, port>> that accept connections
          cache, age, \* answers kept, by name and port; time since the last expiry
          r,          \* the farm's backends by their last attempt
          ev, out, pre
core == <<tab, up, cache, age, r, pre>>
vars == <<tab, up, cache, age, r, ev, out, pre>>
Names == {"n1", "n2"}
Ports == {5672, 5673}
Keys == Names \X Ports
\* b1, b2, b4 are looked up for each connection; b3 was given the first address of its name when it was added
Key == [b1 |-> <<"n1", 5672>>, b2 |-> <<"n2", 5672>>, b4 |-> <<"n1", 5673>>]
Fixed == <<"a3", 5672>>
Members == {"b1", "b2", "b4"}
None == <<>>

InitAt(p) == /\ pre = p /\ tab = [n \in Names |-> <<"a1">>] /\ up = Addrs \X Ports
             /\ cache = [k \in Keys |-> None] /\ age = 0 /\ r = <<>>
             /\ ev = [op |-> "Init"] /\ out = [look |-> <<>>, att |-> <<>>, to |-> None]
Init == \E p \in Pres : InitAt(p)

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Without(_, _)
Without(s, x) == IF s = <<>> THEN <<>> ELSE IF s[1] = x THEN Without(Tail(s), x) ELSE <<s[1]>> \o Without(Tail(s), x)
\* the addresses of l up to and including the first that accepts
RECURSIVE Tries(_)
Tries(l) == IF l = <<>> THEN <<>> ELSE IF l[1] \in up THEN <<l[1]>> ELSE <<l[1]>> \o Tries(Tail(l))
With(l, p) == [i \in DOMAIN l |-> <<l[i], p>>]

\* One backend: new cache, lookups, attempts
Visit(b, ca) ==
  IF b = "b3" THEN [ca |-> ca, look |-> <<>>, att |-> <<Fixed>>]
  ELSE LET k == Key[b] IN
       IF ca[k] # None THEN [ca |-> ca, look |-> <<>>, att |-> Tries(With(ca[k], k[2]))]
       ELSE [ca |-> IF tab[k[1]] = <<>> THEN ca ELSE [ca EXCEPT ![k] = tab[k[1]]],
             look |-> <<k>>, att |-> Tries(With(tab[k[1]], k[2]))]
Last(s) == s[Len(s)]
RECURSIVE Walk(_, _, _)
Walk(left, ca, rr) ==
  IF left = {} THEN {[ca |-> ca, look |-> <<>>, att |-> <<>>, to |-> None, r |-> rr]}
  ELSE LET fresh == {b \in left : b \notin Range(rr)}
           pos(z) == CHOOSE i \in DOMAIN rr : rr[i] = z
           C == IF fresh # {} THEN fresh ELSE {CHOOSE x \in left : \A y \in left : pos(x) <= pos(y)} IN
       UNION {LET v == Visit(b, ca)
                  r2 == Append(Without(rr, b), b)
                  hit == v.att # <<>> /\ Last(v.att) \in up IN
              IF hit THEN {[ca |-> v.ca, look |-> v.look, att |-> v.att, to |-> Last(v.att), r |-> r2]}
              ELSE {[w EXCEPT !.look = v.look \o @, !.att = v.att \o @] : w \in Walk(left \ {b}, v.ca, r2)} : b \in C}
Conn(e) == /\ \E w \in Walk(IF e.v = "f" THEN Members ELSE {e.v}, cache, IF e.v = "f" THEN r ELSE <<>>) :
                /\ cache' = w.ca /\ r' = (IF e.v = "f" THEN w.r ELSE r)
                /\ out' = [look |-> w.look, att |-> w.att, to |-> w.to]
           /\ UNCHANGED <<tab, up, age>>
Quiet == out' = [look |-> <<>>, att |-> <<>>, to |-> None]
Table(e) == tab' = [tab EXCEPT ![e.n] = e.l] /\ UNCHANGED <<up, cache, age, r>> /\ Quiet
Flip(e) == up' = (IF e.a \in up THEN up \ {e.a} ELSE up \cup {e.a}) /\ UNCHANGED <<tab, cache, age, r>> /\ Quiet
Pass(e) == /\ IF age + e.d >= 1000 THEN cache' = [k \in Keys |-> None] /\ age' = 0 ELSE cache' = cache /\ age' = age + e.d
           /\ UNCHANGED <<tab, up, r>> /\ Quiet
Do(e) == /\ ev' = e /\ pre' = pre
         /\ CASE e.op = "Conn" -> Conn(e) [] e.op = "Table" -> Table(e) [] e.op = "Flip" -> Flip(e) [] e.op = "Pass" -> Pass(e)
RECURSIVE Inputs(_)
Inputs(op) ==
  CASE op = "Conn" -> {[op |-> op, v |-> v] : v \in Members \cup {"b3", "f"}}
    [] op = "More" -> Inputs("Conn")
    [] op = "Farm" -> {[op |-> "Conn", v |-> "f"]}
    [] op = "Table" -> {[op |-> op, n |-> n, l |-> l] : n \in Names, l \in Lists}
    [] op = "Flip" -> {[op |-> op, a |-> <<a, p>>] : a \in Addrs, p \in Ports}
    [] op = "Pass" -> {[op |-> op, d |-> d] : d \in Steps}
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
Matches(o) == o = out'
Class == IF ev'.op = "Conn" THEN <<ev', cache, tab, {a \in up : a[1] # "a3"} , pre>> ELSE <<ev', pre>>
Tab1 == {<<>>, <<"a1">>, <<"a2", "a1">>}
Tab2 == {<<>>, <<"a1">>, <<"a2">>, <<"a1", "a2">>, <<"a2", "a1">>, <<"a3", "a2", "a1">>}

\* C17: a connection only ever goes to an address of its backend's name, as found by a lookup since the last expiry or just now;
\* C04: it fails only if no address of any backend accepts
C17 == [][ev'.op = "Conn" =>
            /\ \A i \in DOMAIN out'.look : cache[out'.look[i]] = None
            /\ out'.to # None => out'.to \in up /\ (ev'.v \in Members => out'.to[2] = Key[ev'.v][2])
            /\ out'.to = None => \A i \in DOMAIN out'.att : out'.att[i] \notin up]_vars
Failover == [][ev'.op = "Conn" /\ ev'.v = "f" /\ out'.to = None =>
                 \A b \in Members : LET k == Key[b]   l == IF cache[k] # None THEN cache[k] ELSE tab[k[1]] IN
                    \A i \in DOMAIN l : <<l[i], k[2]>> \notin up]_vars
=============================================================================
