----------------------------- MODULE DataRate -----------------------------
(* Data-rate limits on open connections.  A client sends chunks (whole        *)
(* frames, each written at once); time passes only in Pass steps.  A          *)
(* connection that used up its quota is not read until its next tick; ticks   *)
(* are a second apart and begin when a quota (or alarm quota) is used up for  *)
(* the first time, which also refills it.  Observed: the bytes brokers and    *)
(* clients have received on each connection, which connections are open and   *)
(* which have ended, and whether all bytes were the right ones.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kinds,                \* plain or tls clients
          Conns, Vhosts, Quotas, Chunks, Steps, Ops
VARIABLES def, own, adef, aown, \* the limits configured (Inf: none)
          c,                    \* the connections
          ev, out, pre
core == <<def, own, adef, aown, c, pre>>
vars == <<def, own, adef, aown, c, ev, out, pre>>
Inf == 999999999
Min(a, b) == IF a < b THEN a ELSE b

\* The client's handshake: header, Start-Ok, Tune-Ok and Open together (each sent after the answer to the one before)
Hand == <<8, 300, 60>>
None == [st |-> "none", v |-> "", q |-> Inf, rem |-> Inf, aq |-> Inf, arem |-> Inf, alarmed |-> FALSE, on |-> FALSE, age |-> 0,
         blocked |-> FALSE, wait |-> <<>>, hs |-> 0, fin |-> FALSE, up |-> 0, dn |-> 0]
Eff(d, o, v) == IF v # "" /\ o[v] # Inf THEN o[v] ELSE d

InitAt(p) == /\ pre = p /\ def = Inf /\ own = [v \in Vhosts |-> Inf] /\ adef = Inf /\ aown = [v \in Vhosts |-> Inf]
             /\ c = [x \in Conns |-> None]
             /\ ev = [op |-> "Init"]
             /\ out = [up |-> [x \in Conns |-> 0], dn |-> [x \in Conns |-> 0], st |-> [x \in Conns |-> "none"], ok |-> TRUE]
Init == \E p \in Kinds : InitAt(p)

\* ----- one connection ------------------------------------------------------
Tick(k) == [k EXCEPT !.rem = k.q, !.arem = k.aq, !.alarmed = FALSE, !.on = TRUE, !.age = 0]
Use(rem, q, n) == IF q = Inf THEN rem ELSE LET r == Min(rem, q) IN r - Min(r, n)
\* before the next read
Arm(k) ==
  LET k1 == IF ~k.alarmed /\ k.arem = 0 THEN (IF k.on THEN [k EXCEPT !.alarmed = TRUE] ELSE Tick(k)) ELSE k
  IN IF k1.rem = 0 THEN (IF k1.on THEN [k1 EXCEPT !.blocked = TRUE] ELSE Tick(k1)) ELSE k1
Read(k, n) == Arm([k EXCEPT !.rem = Use(k.rem, k.q, n), !.arem = Use(k.arem, k.aq, n)])
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
\* Everything that is read until the client has nothing more or the quota is used up.  What waits in a plain
\* connection is read at once, in a TLS connection record by record.
RECURSIVE Drain(_)
Drain(k) ==
  IF k.blocked \/ k.st \notin {"hand", "open"} THEN k
  ELSE IF k.st = "hand"
  THEN LET s == k.hs + 1
           r == [Read(k, Hand[s]) EXCEPT !.hs = s] IN
       \* the limits of the virtual host apply from its Open on (which is read under the default's)
       IF s < 3 THEN Drain(r)
       ELSE LET v == k.v
                u == [k EXCEPT !.rem = Use(k.rem, k.q, Hand[3]), !.arem = Use(k.arem, k.aq, Hand[3]), !.hs = 3, !.st = "open",
                               !.q = Eff(def', own', v), !.aq = Eff(adef', aown', v)]
            IN Drain(Arm(u))
  ELSE IF k.wait = <<>> THEN (IF k.fin THEN [k EXCEPT !.st = "gone"] ELSE k)
  ELSE IF pre = "tls" THEN Drain([Read(k, k.wait[1]) EXCEPT !.wait = Tail(@), !.up = @ + k.wait[1]])
  ELSE Drain([Read(k, Sum(k.wait)) EXCEPT !.wait = <<>>, !.up = @ + Sum(k.wait)])

Watch(d) == /\ c' = d /\ pre' = pre
            /\ out' = [up |-> [x \in Conns |-> d[x].up], dn |-> [x \in Conns |-> d[x].dn],
                       st |-> [x \in Conns |-> d[x].st], ok |-> TRUE]
SameCfg == UNCHANGED <<def, own, adef, aown>>

Limit(e) ==
  /\ IF e.al THEN /\ def' = def /\ own' = own
                  /\ IF e.v = "*" THEN adef' = e.q /\ aown' = aown ELSE aown' = [aown EXCEPT ![e.v] = e.q] /\ adef' = adef
     ELSE /\ adef' = adef /\ aown' = aown
          /\ IF e.v = "*" THEN def' = e.q /\ own' = own ELSE own' = [own EXCEPT ![e.v] = e.q] /\ def' = def
  \* existing connections have the new quota at once, but are refilled only by their next tick
  /\ Watch([x \in Conns |-> IF c[x].st = "none" THEN c[x]
                            ELSE LET v == IF c[x].st = "hand" THEN "" ELSE c[x].v IN
                                 [c[x] EXCEPT !.q = Eff(def', own', v), !.aq = Eff(adef', aown', v)]])
Open(e) == /\ c[e.x].st = "none" /\ SameCfg
           /\ Watch([c EXCEPT ![e.x] = Drain([None EXCEPT !.st = "hand", !.v = e.v, !.q = def, !.aq = adef])])
Send(e) == /\ c[e.x].st = "open" /\ ~c[e.x].fin /\ Sum(c[e.x].wait) <= 30000 /\ SameCfg
           /\ Watch([c EXCEPT ![e.x] = Drain([c[e.x] EXCEPT !.wait = Append(@, e.n)])])
Recv(e) == /\ c[e.x].st = "open" /\ SameCfg
           /\ Watch([c EXCEPT ![e.x].dn = @ + e.n])
\* The client ends its stream; noticed when it is read again
Fin(e) == /\ c[e.x].st = "open" /\ ~c[e.x].fin /\ SameCfg
          /\ Watch([c EXCEPT ![e.x] = Drain([c[e.x] EXCEPT !.fin = TRUE])])
\* The broker ends the connection
BFin(e) == /\ c[e.x].st = "open" /\ SameCfg
           /\ Watch([c EXCEPT ![e.x].st = "gone"])
\* After the end, the name is used for a new connection
Forget(e) == /\ c[e.x].st = "gone" /\ SameCfg /\ Watch([c EXCEPT ![e.x] = None])
Later(k, d) ==
  IF ~k.on \/ k.st \notin {"hand", "open"} THEN k
  ELSE IF k.age + d < 1000 THEN [k EXCEPT !.age = @ + d]
  ELSE LET t == Tick(k) IN IF ~k.blocked THEN t ELSE Drain(Arm([t EXCEPT !.blocked = FALSE]))
Pass(e) == /\ SameCfg /\ Watch([x \in Conns |-> Later(c[x], e.d)])

Do(e) == /\ ev' = e
         /\ CASE e.op = "Limit" -> Limit(e) [] e.op = "Open" -> Open(e) [] e.op = "Send" -> Send(e) [] e.op = "Recv" -> Recv(e)
              [] e.op = "Fin" -> Fin(e) [] e.op = "BFin" -> BFin(e) [] e.op = "Forget" -> Forget(e) [] e.op = "Pass" -> Pass(e)
RECURSIVE Inputs(_)
Inputs(op) ==
  CASE op = "Limit" -> {[op |-> op, al |-> a, v |-> v, q |-> q] : a \in {TRUE, FALSE}, v \in Vhosts \cup {"*"}, q \in Quotas \cup {Inf}}
    [] op = "Open" -> {[op |-> op, x |-> x, v |-> v] : x \in {x \in Conns : c[x].st = "none"}, v \in Vhosts}
    [] op \in {"Send", "Recv"} -> {[op |-> op, x |-> x, n |-> n] : x \in {x \in Conns : c[x].st = "open"}, n \in Chunks}
    [] op \in {"More", "Most"} -> Inputs("Send")      \* to have more of them in random behaviours
    [] op = "Pass" -> {[op |-> op, d |-> d] : d \in Steps}
    [] OTHER -> {[op |-> op, x |-> x] : x \in Conns}
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars

Matches(o) == o = out'
K(x) == LET k == c[x] IN <<k.st, k.q, k.rem, k.aq, k.arem, k.on, k.age, k.blocked, Len(k.wait), k.fin>>
Class == IF ev'.op \in {"Limit"} THEN <<ev', {K(x) : x \in Conns}, pre>>
         ELSE IF ev'.op = "Pass" THEN <<ev', {K(x) : x \in Conns}, pre>>
         ELSE <<ev', K(ev'.x), def, own, pre>>
View == <<def, own, adef, aown, [x \in Conns |-> [c[x] EXCEPT !.up = 0, !.dn = 0]], pre>>

\* C09 on the specification
Live(k) == k.st \in {"hand", "open"}
C09 == \A x \in Conns : LET k == c[x] IN
         /\ Live(k) /\ k.blocked => k.on /\ k.age < 1000               \* a tick is coming
         /\ Live(k) => k.blocked \/ k.wait = <<>>                      \* whatever can be read is read
         /\ k.st = "open" => k.q = Eff(def, own, k.v) /\ k.aq = Eff(adef, aown, k.v)
         /\ Live(k) /\ k.rem > 0 => ~k.blocked
\* Between two ticks the client is not read once its quota is used up; nobody is delayed who has no limit
Quota == [][\A x \in Conns : LET k == c[x]   n == c'[x] IN
              /\ (Live(k) /\ k.blocked /\ k.rem = 0 /\ ev'.op # "Pass" => n.up = k.up \/ n.st = "none")
              /\ (n.st = "open" /\ k.st = "open" /\ k.q = Inf /\ n.q = Inf /\ ~k.blocked => ~n.blocked)
              /\ (n.st = "open" /\ k.st = "open" => n.up >= k.up /\ n.up + Sum(n.wait) = k.up + Sum(k.wait) + (IF ev'.op = "Send" /\ ev'.x = x THEN ev'.n ELSE 0))]_vars
Small == \A x \in Conns : Len(c[x].wait) <= 2
=============================================================================
