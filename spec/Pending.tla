------------------------------- MODULE Pending -------------------------------
(* Sessions that are on their way to a broker: the lookup of its name is      *)
(* still outstanding, or the broker's address does not answer the dial.       *)
(* Lookups are answered when the environment says so, one after the other;    *)
(* meanwhile clients leave, sessions are disconnected and hosts paused.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Clients, Ops, Pres
VARIABLES ses,   \* per client: [st, v, left (backends not yet tried), rest (addresses not yet tried), b, psd]
          q,     \* outstanding lookups: [c, b, live]; the first is being answered
          net,   \* per address: "up", "down" or "stuck"
          paused,
          ev, out, pre
core == <<ses, q, net, paused, pre>>
vars == <<ses, q, net, paused, ev, out, pre>>

Addrs == {"a1", "a2", "a3"}
Bk == {"b1", "b2"}
Of == [b1 |-> <<"a1", "a2">>, b2 |-> <<"a3">>]     \* the addresses of a backend's name
Vh == {"v1", "v2", "vf"}
Cand == [v1 |-> {"b1"}, v2 |-> {"b2"}, vf |-> {"b1", "b2"}]
Idle == [st |-> "idle", v |-> "-", left |-> {}, rest |-> <<>>, b |-> "-", psd |-> FALSE]
NoOut == [cl |-> [c \in Clients |-> <<>>], br |-> [c \in Clients |-> <<>>], att |-> <<>>, look |-> <<>>, live |-> {}, dial |-> {}]
\* with the sessions listed and the addresses being dialled after the step
Fin(o) == [o EXCEPT !.live = {c \in Clients : ses'[c].st # "idle"}, !.dial = {ses'[c].b : c \in {d \in Clients : ses'[d].st = "dial"}}]
InitAt(p) == /\ pre = p /\ ses = [c \in Clients |-> Idle] /\ q = <<>>
             /\ net = [a \in Addrs |-> "up"] /\ paused = {} /\ ev = [op |-> "Init"] /\ out = NoOut
Init == \E p \in Pres : InitAt(p)

Live == {c \in Clients : ses[c].st # "idle"}
Dialing == {ses[c].b : c \in {d \in Clients : ses[d].st = "dial"}}

\* what session s does next at its addresses `rest`: [s, att, br, cl, ask (backend to look up or "-")]
RECURSIVE Walk(_, _)
Walk(s, att) ==
  IF s.rest # <<>> THEN
    LET a == Head(s.rest)   t == [s EXCEPT !.rest = Tail(@)] IN
    CASE net[a] = "up" -> {[s |-> [t EXCEPT !.st = "conn", !.b = a], att |-> Append(att, a), br |-> <<"conn:" \o a, "hdr">>, cl |-> <<>>, ask |-> "-"]}
      [] net[a] = "stuck" -> {[s |-> [t EXCEPT !.st = "dial", !.b = a], att |-> Append(att, a), br |-> <<>>, cl |-> <<>>, ask |-> "-"]}
      [] OTHER -> Walk(t, Append(att, a))
  ELSE IF s.psd THEN {[s |-> [s EXCEPT !.st = "lost"], att |-> att, br |-> <<>>, cl |-> <<>>, ask |-> "-"]}
  ELSE IF s.left = {} THEN {[s |-> Idle, att |-> att, br |-> <<>>, cl |-> <<"eof">>, ask |-> "-"]}
  ELSE {[s |-> [s EXCEPT !.st = "look", !.left = @ \ {b}, !.b = "-"], att |-> att, br |-> <<>>, cl |-> <<>>, ask |-> b] : b \in s.left}

\* the session of client c becomes x.s; q0: the other lookups
Begins(before, after) == IF after # <<>> /\ (before = <<>> \/ Head(before).k # Head(after).k) THEN <<Head(after).b>> ELSE <<>>
Step(c, x, q0) ==
  LET n == IF q = <<>> THEN 1 ELSE (q[Len(q)].k % 7) + 1
      q1 == IF x.ask = "-" THEN q0 ELSE Append(q0, [c |-> c, b |-> x.ask, live |-> TRUE, k |-> n]) IN
  /\ ses' = [ses EXCEPT ![c] = x.s] /\ q' = q1
  /\ out' = Fin([NoOut EXCEPT !.cl[c] = x.cl, !.br[c] = x.br, !.att = x.att, !.look = Begins(q, q1)])

Open(e) == /\ ses[e.c].st = "idle" /\ Len(q) < 5 /\ UNCHANGED <<net, paused>>
           /\ LET s == [Idle EXCEPT !.v = e.v, !.left = Cand[e.v], !.psd = e.v \in paused] IN
              IF s.psd THEN ses' = [ses EXCEPT ![e.c] = [s EXCEPT !.st = "held"]] /\ UNCHANGED q /\ out' = Fin(NoOut)
              ELSE \E x \in Walk(s, <<>>) : Step(e.c, x, q)
Answer(e) == /\ q # <<>> /\ UNCHANGED <<net, paused>>
             /\ LET h == Head(q) IN
                IF h.live THEN \E x \in Walk([ses[h.c] EXCEPT !.rest = IF e.r = "ok" THEN Of[h.b] ELSE <<>>], <<>>) : Step(h.c, x, Tail(q))
                ELSE q' = Tail(q) /\ UNCHANGED ses /\ out' = Fin([NoOut EXCEPT !.look = Begins(q, Tail(q))])
\* the sessions of clients C end
Cut(C, cl) ==
  /\ ses' = [c \in Clients |-> IF c \in C THEN Idle ELSE ses[c]]
  /\ q' = [i \in DOMAIN q |-> IF q[i].c \in C THEN [q[i] EXCEPT !.live = FALSE] ELSE q[i]]
  /\ out' = Fin([NoOut EXCEPT !.cl = [c \in Clients |-> IF c \in C THEN cl ELSE <<>>],
                          !.br = [c \in Clients |-> IF c \in C /\ ses[c].st = "conn" THEN <<"eof">> ELSE <<>>]])
\* a paused session may notice only when unpaused that its client is gone
Leave(e) == ses[e.c].st # "idle" /\ ~ses[e.c].psd /\ UNCHANGED <<net, paused>>
            /\ Cut({e.c}, IF e.how \in {"half", "junk"} THEN <<"eof">> ELSE <<>>)
Force(e) == ses[e.c].st # "idle" /\ UNCHANGED <<net, paused>> /\ Cut({e.c}, <<"eof">>)
VForce(e) == UNCHANGED <<net, paused>> /\ Cut({c \in Live : ses[c].v = e.v}, <<"eof">>)
Broker(e) == ses[e.c].st = "conn" /\ ~ses[e.c].psd /\ UNCHANGED <<net, paused>>
             /\ ses' = [ses EXCEPT ![e.c] = Idle] /\ UNCHANGED q /\ out' = Fin([NoOut EXCEPT !.cl[e.c] = <<"eof">>])
Pause(e) == /\ paused' = paused \cup {e.v} /\ UNCHANGED <<net, q>>
            /\ ses' = [c \in Clients |-> IF ses[c].v = e.v /\ c \in Live THEN [ses[c] EXCEPT !.psd = TRUE] ELSE ses[c]]
            /\ out' = Fin(NoOut)
\* held sessions go on; those further on end.  At most one held session, for the order of several is open
Held(v) == {c \in Live : ses[c].v = v /\ ses[c].st = "held"}
Unpause(e) == /\ paused' = paused \ {e.v} /\ UNCHANGED net
              /\ LET H == Held(e.v)   X == {c \in Live : ses[c].v = e.v /\ ses[c].psd} \ H IN
                 IF X # {} THEN H = {} /\ Cut(X, <<"eof">>)
                 ELSE IF H = {} THEN UNCHANGED <<ses, q>> /\ out' = Fin(NoOut)
                 ELSE /\ Cardinality(H) = 1
                      /\ \E c \in H : \E x \in Walk([ses[c] EXCEPT !.psd = FALSE], <<>>) : Step(c, x, q)
Flip(e) == /\ net[e.a] # e.n /\ (net[e.a] = "stuck" => e.a \notin Dialing)
           /\ net' = [net EXCEPT ![e.a] = e.n] /\ UNCHANGED <<ses, q, paused>> /\ out' = Fin(NoOut)
Do(e) == /\ ev' = e /\ pre' = pre
         /\ CASE e.op = "Open" -> Open(e) [] e.op = "Answer" -> Answer(e) [] e.op = "Leave" -> Leave(e) [] e.op = "Force" -> Force(e)
              [] e.op = "VForce" -> VForce(e) [] e.op = "Broker" -> Broker(e) [] e.op = "Pause" -> Pause(e) [] e.op = "Unpause" -> Unpause(e)
              [] e.op = "Flip" -> Flip(e)
RECURSIVE Inputs(_)
Inputs(op) ==
  CASE op = "Open" -> {[op |-> op, c |-> c, v |-> v] : c \in Clients, v \in Vh}
    [] op = "Answer" -> {[op |-> op, r |-> r] : r \in {"ok", "fail"}}
    [] op = "Again" -> Inputs("Answer")
    [] op = "Leave" -> {[op |-> op, c |-> c, how |-> h] : c \in Clients, h \in {"close", "rst", "half", "junk"}}
    [] op \in {"Force", "Broker"} -> {[op |-> op, c |-> c] : c \in Clients}
    [] op \in {"VForce", "Pause", "Unpause"} -> {[op |-> op, v |-> v] : v \in Vh}
    [] op = "Flip" -> {[op |-> op, a |-> a, n |-> n] : a \in Addrs, n \in {"up", "down", "stuck"}}
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
Range(x) == {x[i] : i \in DOMAIN x}
Matches(o) == o.cl = out'.cl /\ o.br = out'.br /\ o.att = out'.att /\ o.look = out'.look /\ Range(o.live) = out'.live /\ Range(o.dial) = out'.dial
Class == <<ev'.op, IF "c" \in DOMAIN ev' THEN ses[ev'.c] ELSE Idle, ev', IF q = <<>> THEN Idle ELSE ses[q[1].c], Len(q)>>
Small == Len(q) <= 2

\* C10: nothing is attempted for a session that has ended, and a broker connection never outlives its session
C10 == [][/\ (out'.att # <<>> => \E c \in Clients : /\ ses[c].st # "idle" \/ ev'.op = "Open"
                                                   /\ (ses'[c] # ses[c]))
          /\ (ev'.op = "Answer" /\ ~Head(q).live => out'.att = <<>> /\ ses' = ses)
          /\ \A c \in Clients : ses[c].st = "conn" /\ ses'[c].st = "idle" /\ ev'.op # "Broker" => out'.br[c] = <<"eof">>]_vars
\* C07: no broker is dialled for a client held at Open
C07 == [][\A c \in Clients : ses[c].st = "held" /\ ev'.op # "Unpause" => ses'[c].st \in {"held", "idle"}]_vars
=============================================================================
