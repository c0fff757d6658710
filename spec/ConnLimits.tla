---------------------------- MODULE ConnLimits ----------------------------
(* Connection-rate limits.  Time is counted in milliseconds and only passes   *)
(* in Pass steps.         A limiter admits at most n connections from the     *)
(* beginning of its window; the window ends a second (or more) later, with    *)
(* the first connection then.  A refused client is told so 750 ms after its   *)
(* Open.  Observed per virtual host: how many clients became open, were told  *)
(* they are limited, were told there is no mapping, or were treated in any    *)
(* other way.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mapped, Unmapped, Limits, Counts, Steps, Ops, Pres,
          Exact      \* whether a new limiter's window begins where the implementation lets it begin, or anywhere up to its first connection
VARIABLES def, own, lm,        \* configuration; limiters by virtual host
          adef, aown,          \* alarm-only configuration
          paused, held,        \* clients waiting for the virtual host to be unpaused
          due,                 \* refused clients by the time until they are told
          ev, out, pre
core == <<def, own, lm, adef, aown, paused, held, due, pre>>
vars == <<def, own, lm, adef, aown, paused, held, due, ev, out, pre>>

V == Mapped \cup Unmapped
Off == -1
NoLimiter == [n |-> Off, age |-> 0, cnt |-> 0, st |-> "lazy"]
Lazy(n) == [NoLimiter EXCEPT !.n = n]         \* the default's, before the virtual host's first connection
New(n) == [n |-> n, age |-> 0, cnt |-> 0, st |-> "fresh"]
Min(a, b) == IF a < b THEN a ELSE b
Zero == [v \in V |-> 0]
Nothing == [open |-> Zero, lim |-> Zero, nomap |-> Zero, other |-> Zero, print |-> <<>>]
Effective(d, o) == IF o # Off THEN o ELSE d

InitAt(p) == /\ pre = p /\ def = Off /\ own = [v \in V |-> Off] /\ lm = [v \in V |-> NoLimiter]
             /\ adef = Off /\ aown = [v \in V |-> Off]
             /\ paused = {} /\ held = Zero /\ due = [v \in V |-> <<>>]
             /\ ev = [op |-> "Init"] /\ out = Nothing
Init == \E p \in Pres : InitAt(p)

Set(e) == /\ IF e.v = "*"
             THEN /\ def' = e.n /\ own' = own
                  /\ lm' = [v \in V |-> IF own[v] # Off THEN lm[v] ELSE IF e.n = Off THEN NoLimiter
                                            ELSE IF lm[v].st = "lazy" THEN Lazy(e.n) ELSE New(e.n)]
             ELSE /\ own' = [own EXCEPT ![e.v] = e.n] /\ def' = def
                  /\ lm' = [lm EXCEPT ![e.v] = IF e.n # Off THEN New(e.n) ELSE IF def # Off THEN New(def) ELSE NoLimiter]
          /\ UNCHANGED <<adef, aown, paused, held, due>> /\ out' = Nothing
ASet(e) == /\ IF e.v = "*" THEN adef' = e.n /\ aown' = aown ELSE aown' = [aown EXCEPT ![e.v] = e.n] /\ adef' = adef
           /\ UNCHANGED <<def, own, lm, paused, held, due>> /\ out' = Nothing
Show(e) == /\ out' = [Nothing EXCEPT !.print = IF e.v = "*" THEN <<adef, def>>
                                                ELSE <<Effective(adef, aown[e.v]), Effective(def, own[e.v])>>]
            /\ UNCHANGED <<def, own, lm, adef, aown, paused, held, due>>

Win(l) == IF l.age >= 1000 THEN [l EXCEPT !.age = 0, !.cnt = 0] ELSE l
Begins(l) == IF l.n = Off \/ l.st = "used" THEN {l}
             ELSE IF Exact THEN {IF l.st = "lazy" THEN [l EXCEPT !.age = 0] ELSE l}
             ELSE {[l EXCEPT !.age = x] : x \in {0, l.age}}
\* k clients of v arrive at the selector
Arrive(v, k, dd, cut) ==
  \E l0 \in Begins(lm[v]) :
  LET l == Win(l0)
      adm == IF l.n = Off THEN k ELSE Min(k, l.n - l.cnt)
      ref == k - adm IN
  /\ lm' = IF k = 0 \/ l.n = Off THEN lm ELSE [lm EXCEPT ![v] = [l EXCEPT !.cnt = @ + adm, !.st = "used"]]
  /\ due' = [dd EXCEPT ![v] = @ \o [i \in 1..ref |-> 750]]
  /\ out' = IF v \in Mapped THEN [Nothing EXCEPT !.open[v] = adm, !.other[v] = cut] ELSE [Nothing EXCEPT !.nomap[v] = adm, !.other[v] = cut]
Conn(e) == /\ UNCHANGED <<def, own, adef, aown, paused>>
           /\ IF e.v \in paused THEN held' = [held EXCEPT ![e.v] = @ + e.k] /\ out' = Nothing /\ UNCHANGED <<lm, due>>
              ELSE Arrive(e.v, e.k, due, 0) /\ held' = held
Pause(e) == /\ paused' = paused \cup {e.v} /\ out' = Nothing
            /\ UNCHANGED <<def, own, lm, adef, aown, held, due>>
\* Refused clients that were not told yet are past the point of being held: unpausing disconnects them
Unpause(e) == /\ paused' = paused \ {e.v} /\ held' = [held EXCEPT ![e.v] = 0]
              /\ UNCHANGED <<def, own, adef, aown>>
              /\ Arrive(e.v, held[e.v], [due EXCEPT ![e.v] = <<>>], Len(due[e.v]))
\* A client that was refused leaves before it is told
Quit(e) == /\ e.i \in DOMAIN due[e.v]
           /\ due' = [due EXCEPT ![e.v] = SubSeq(@, 1, e.i - 1) \o SubSeq(@, e.i + 1, Len(@))]
           /\ UNCHANGED <<def, own, lm, adef, aown, paused, held>> /\ out' = Nothing

Pass(e) == /\ lm' = [v \in V |-> [lm[v] EXCEPT !.age = Min(1000, @ + e.d)]]
           /\ LET now == [v \in V |-> Cardinality({i \in DOMAIN due[v] : due[v][i] <= e.d})] IN
              /\ due' = [v \in V |-> [i \in 1..(Len(due[v]) - now[v]) |-> due[v][i + now[v]] - e.d]]
              /\ out' = [Nothing EXCEPT !.lim = now]
           /\ UNCHANGED <<def, own, adef, aown, paused, held>>

Do(e) == /\ ev' = e /\ pre' = pre
         /\ CASE e.op = "Set" -> Set(e) [] e.op = "ASet" -> ASet(e) [] e.op = "Conn" -> Conn(e) [] e.op = "Pass" -> Pass(e)
              [] e.op = "Pause" -> Pause(e) [] e.op = "Unpause" -> Unpause(e) [] e.op = "Quit" -> Quit(e) [] e.op = "Print" -> Show(e)
Inputs(op) ==
  CASE op \in {"Set", "ASet"} -> {[op |-> op, v |-> v, n |-> n] : v \in V \cup {"*"}, n \in Limits \cup {Off}}
    [] op = "Print" -> {[op |-> op, v |-> v] : v \in V \cup {"*"}}
    [] op = "Conn" -> {[op |-> op, v |-> v, k |-> k] : v \in V, k \in Counts}
    [] op = "Pass" -> {[op |-> op, d |-> d] : d \in Steps}
    [] op = "Quit" -> {[op |-> op, v |-> v, i |-> i] : v \in V, i \in 1..2}
    [] op = "Pause" -> {[op |-> op, v |-> v] : v \in V \ paused}
    [] op = "Unpause" -> {[op |-> op, v |-> v] : v \in paused}
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars

Matches(o) == o = out'
Class == IF ev'.op \in {"Conn", "Unpause"}
         THEN LET v == ev'.v IN <<ev', def, own[v], lm[v], v \in paused, held[v], pre>>
         ELSE IF ev'.op = "Pass" THEN <<ev', {due[v] : v \in V}, pre>>
         ELSE IF ev'.op = "Quit" THEN <<ev', pre>>
         ELSE <<ev', def, IF ev'.v = "*" THEN Off ELSE own[ev'.v], IF ev'.v = "*" THEN NoLimiter ELSE lm[ev'.v], pre>>

\* C08 on the specification
C08 == \A v \in V : /\ lm[v].n = Effective(def, own[v])
                    /\ lm[v].n # Off => lm[v].cnt <= lm[v].n
\* what one virtual host does never changes what another may do
Apart == [][ev'.op \in {"Conn", "Unpause", "Quit"} => \A v \in V \ {ev'.v} : lm'[v] = lm[v] /\ due'[v] = due[v] /\ held'[v] = held[v]]_vars
\* and a client is refused only if as many as allowed were admitted in its window
Fair == [][ev'.op = "Conn" /\ ev'.v \notin paused =>
             LET v == ev'.v   ref == Len(due'[v]) - Len(due[v]) IN
             ref > 0 => lm'[v].n # Off /\ lm'[v].cnt = lm'[v].n]_vars
Small == \A v \in V : held[v] <= 2 /\ Len(due[v]) <= 2
=============================================================================
