------------------------------ MODULE Listing ------------------------------
(* What CONN says of the connections: one line each, from the moment a client *)
(* connects until the clean-up after its end, with its virtual host, both of  *)
(* its peers, what has been relayed, and whether it is paused, denied or over. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Cons,      \* clients
          Srcs, Dsts, \* addresses they come from, addresses of the proxy they dial
          Routed,    \* virtual hosts that have a backend: <<virtual host, backend>>
          Amounts,   \* <<frames, bytes>> that may pass in one go
          OpenF, OpenB, \* what opening a connection relays to the client
          Ends, Ops, Pres
VARIABLES con, paused, named, ev, out, pre
core == <<con, paused, named, pre>>
vars == <<con, paused, named, ev, out, pre>>

R2 == {<<"v1", "b1">>, <<"v2", "b2">>}
R3 == {<<"v1", "b1">>, <<"v2", "b2">>, <<"v3", "b1">>}
A1 == {<<1, 8>>}
A4 == {<<1, 8>>, <<3, 24>>, <<2, 5000>>, <<1, 60000>>}
Vhosts == {r[1] : r \in Routed}
To(v) == (CHOOSE r \in Routed : r[1] = v)[2]
None == [st |-> "none"]

\* The line of a connection (a paused connection that is over need not say so)
Line(k, c) == [k |-> k, v |-> c.v, over |-> c.st = "gone", paused |-> c.paused /\ c.st # "gone", denied |-> c.denied, rem |-> c.src, loc |-> c.dst,
               broker |-> c.b, names |-> named', in |-> c.in, outw |-> c.outw, id |-> "ok"]
Show == out' = {Line(k, con'[k]) : k \in {x \in Cons : con'[x].st # "none"}}
InitAt(p) == /\ pre = p /\ con = [k \in Cons |-> None] /\ paused = {} /\ named = (p = "named") /\ ev = [op |-> "Init"] /\ out = {}
Init == \E p \in Pres : InitAt(p)

\* The client has connected and sent its header
Dial(e) ==
  /\ con[e.k].st = "none"
  /\ con' = [con EXCEPT ![e.k] = [st |-> "new", src |-> e.s, dst |-> e.d, v |-> "", b |-> "-", paused |-> FALSE, denied |-> FALSE,
                                  in |-> <<0, 0>>, outw |-> <<0, 0>>]]
  /\ UNCHANGED <<paused, named>>
Up(c) == [c EXCEPT !.st = "open", !.b = To(c.v), !.paused = FALSE, !.outw = <<OpenF, OpenB>>]
\* It asks for a virtual host
Open(e) ==
  LET c == [con[e.k] EXCEPT !.v = e.v] IN
  /\ con[e.k].st = "new"
  /\ con' = [con EXCEPT ![e.k] = IF e.v \in paused THEN [c EXCEPT !.st = "held", !.paused = TRUE]
                                 ELSE IF e.v = "vd" THEN [c EXCEPT !.st = "gone", !.denied = TRUE]
                                 ELSE IF e.v \in Vhosts THEN Up(c) ELSE [c EXCEPT !.st = "gone"]]
  /\ UNCHANGED <<paused, named>>
Plus(t, a) == <<t[1] + a[1], t[2] + a[2]>>
\* Whole frames pass; the beginning of one does not count until the rest is there
Pass(e) ==
  /\ con[e.k].st = "open" /\ ~con[e.k].paused
  /\ con' = [con EXCEPT ![e.k] = IF e.d = "in" THEN [@ EXCEPT !.in = Plus(@, e.a)] ELSE [@ EXCEPT !.outw = Plus(@, e.a)]]
  /\ UNCHANGED <<paused, named>>
Pause(e) ==
  /\ e.v \notin paused /\ paused' = paused \cup {e.v}
  /\ con' = [k \in Cons |-> IF con[k].st = "open" /\ con[k].v = e.v THEN [con[k] EXCEPT !.paused = TRUE] ELSE con[k]]
  /\ UNCHANGED named
Unpause(e) ==
  /\ paused' = paused \ {e.v}
  /\ con' = [k \in Cons |-> IF con[k].st = "held" /\ con[k].v = e.v THEN Up(con[k])
                            ELSE IF con[k].st = "open" /\ con[k].v = e.v /\ con[k].paused THEN [con[k] EXCEPT !.st = "gone"] ELSE con[k]]
  /\ UNCHANGED named
SPause(e) == con[e.k].st = "open" /\ con' = [con EXCEPT ![e.k].paused = TRUE] /\ UNCHANGED <<paused, named>>
\* An end (a paused connection's peers may go unnoticed)
End(e) ==
  /\ con[e.k].st \in {"new", "held", "open"}
  /\ IF e.how = "force" THEN TRUE ELSE ~con[e.k].paused
  /\ IF e.how \in {"server", "clean"} THEN con[e.k].st = "open" ELSE TRUE
  /\ con' = [con EXCEPT ![e.k].st = "gone"] /\ UNCHANGED <<paused, named>>
Sweep(e) == con' = [k \in Cons |-> IF con[k].st = "gone" THEN None ELSE con[k]] /\ UNCHANGED <<paused, named>>
Names(e) == named' = TRUE /\ UNCHANGED <<con, paused>>
Do(e) == /\ ev' = e /\ pre' = pre
         /\ CASE e.op = "Dial" -> Dial(e) [] e.op = "Open" -> Open(e) [] e.op = "Pass" -> Pass(e) [] e.op = "Pause" -> Pause(e) [] e.op = "Unpause" -> Unpause(e)
              [] e.op = "SPause" -> SPause(e) [] e.op = "End" -> End(e) [] e.op = "Sweep" -> Sweep(e) [] e.op = "Names" -> Names(e)
         /\ Show
RECURSIVE Inputs(_)
Inputs(op) ==
  CASE op = "Dial" -> {[op |-> op, k |-> k, s |-> s, d |-> d] : k \in Cons, s \in Srcs, d \in Dsts}
    [] op = "Open" -> {[op |-> op, k |-> k, v |-> v] : k \in Cons, v \in Vhosts \cup {"vd", "vn"}}
    [] op = "Pass" -> {[op |-> op, k |-> k, d |-> d, a |-> a] : k \in Cons, d \in {"in", "out"}, a \in Amounts}
    [] op \in {"Pause", "Unpause"} -> {[op |-> op, v |-> v] : v \in Vhosts}
    [] op = "SPause" -> {[op |-> op, k |-> k] : k \in Cons}
    [] op = "End" -> {[op |-> op, k |-> k, how |-> h] : k \in Cons, h \in Ends}
    [] op \in {"Sweep", "Names"} -> {[op |-> op]}
    [] op = "Dial2" -> Inputs("Dial")
    [] op = "Open2" -> {[op |-> "Open", k |-> k, v |-> v] : k \in Cons, v \in Vhosts}
    [] op = "Pass2" -> Inputs("Pass")
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
Kind(c) == IF c.st = "none" THEN <<"none">> ELSE <<c.st, c.paused, c.denied, c.b # "-", c.in[1] > 0>>
Class == <<ev', [k \in Cons |-> Kind(con[k])], named, pre>>
SetOf(s) == {s[i] : i \in DOMAIN s}
Matches(o) == /\ Len(o) = Cardinality(out')
              /\ SetOf(o) = out'

\* Every connection is listed once while it is alive and no other is; a line's figures only grow; only clean-up removes lines, and only of connections that are over
C23 == [][/\ \A k \in Cons : Cardinality({l \in out' : l.k = k}) = (IF con'[k].st = "none" THEN 0 ELSE 1)
          /\ \A l \in out : LET m == {x \in out' : x.k = l.k} IN
               IF m = {} THEN l.over /\ ev'.op = "Sweep"
               ELSE \A x \in m : /\ x.in[2] >= l.in[2] /\ x.outw[2] >= l.outw[2] /\ x.rem = l.rem /\ x.loc = l.loc
                                 /\ (l.over => x.over) /\ (l.v = "" \/ x.v = l.v) /\ (l.broker = "-" \/ x.broker = l.broker)
          /\ \A l \in out' : (l.broker # "-" => l.v \in Vhosts /\ To(l.v) = l.broker) /\ (l.denied => l.over /\ l.broker = "-")]_vars
Small == \A k \in Cons : con[k].st = "none" \/ (con[k].in[1] < 2 /\ con[k].outw[1] < 3)
=============================================================================
