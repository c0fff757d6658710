------------------------------ MODULE Buffers ------------------------------
(* The buffer pool as its users see it.  A handle holds at most one buffer;   *)
(* what is observed after every operation is the size of the handle's buffer, *)
(* whether every held buffer still has its holder's contents and overlaps no  *)
(* other one, and the pool's statistics.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Pools,      \* names of initial configurations
          Handles, Ops
VARIABLES h,          \* handle -> [cls, size]; cls 0: empty, Len(Classes)+1: heap
          outst, high, spill,
          ev, out, pre
core == <<h, outst, high, spill, pre>>
vars == <<h, outst, high, spill, ev, out, pre>>

\* The size classes (ascending) of each pool: the server's own, some small ones, a single and none
Classes == [server |-> <<32, 64, 128, 256, 512, 1024, 4096, 16384, 32768, 65536, 131072>>,
            small |-> <<8, 24, 100>>, one |-> <<64>>, none |-> <<>>][pre]
N == Len(Classes)
Sizes == {0, 1} \cup UNION {{Classes[i] - 1, Classes[i], Classes[i] + 1} : i \in DOMAIN Classes} \cup {200000}
ClassOf(s) == IF \E i \in DOMAIN Classes : s <= Classes[i]
              THEN CHOOSE i \in DOMAIN Classes : s <= Classes[i] /\ \A j \in 1..(i - 1) : s > Classes[j]
              ELSE N + 1
Empty == [cls |-> 0, size |-> 0]

InitAt(p) == /\ pre = p
             /\ h = [x \in Handles |-> Empty]
             /\ outst = [i \in 1..Len(Classes) |-> 0] /\ high = [i \in 1..Len(Classes) |-> 0] /\ spill = 0
             /\ ev = [op |-> "Init"] /\ out = [size |-> 0, ok |-> TRUE, stats |-> <<>>, spill |-> 0]
Init == \E p \in Pools : InitAt(p)

Max(a, b) == IF a > b THEN a ELSE b
Observe(size) ==
  /\ out' = [size |-> size, ok |-> TRUE, stats |-> [i \in 1..N |-> <<Classes[i], outst'[i], high'[i]>>], spill |-> spill']
  /\ pre' = pre
Drop(o, c) == IF c \in 1..N THEN [o EXCEPT ![c] = @ - 1] ELSE o

\* The new buffer is obtained before the handle lets go of the old one
Acquire(e) ==
  LET c == ClassOf(e.s)
      o1 == IF c \in 1..N THEN [outst EXCEPT ![c] = @ + 1] ELSE outst IN
  /\ h' = [h EXCEPT ![e.h] = [cls |-> c, size |-> e.s]]
  /\ high' = IF c \in 1..N THEN [high EXCEPT ![c] = Max(@, o1[c])] ELSE high
  /\ outst' = Drop(o1, h[e.h].cls)
  /\ spill' = IF c = N + 1 THEN spill + 1 ELSE spill
  /\ Observe(e.s)
Release(e) == /\ outst' = Drop(outst, h[e.h].cls) /\ h' = [h EXCEPT ![e.h] = Empty]
              /\ UNCHANGED <<high, spill>> /\ Observe(0)
Swap(e) == /\ h' = [h EXCEPT ![e.h] = h[e.g], ![e.g] = h[e.h]]
           /\ UNCHANGED <<outst, high, spill>> /\ Observe(h[e.g].size)
\* The holder writes to all of its buffer
Fill(e) == h[e.h].cls # 0 /\ UNCHANGED <<h, outst, high, spill>> /\ Observe(h[e.h].size)
\* Acquire and release 300 times with a handle of its own: memory is reused, at most one more is out
Churn(e) ==
  LET c == ClassOf(e.s) IN
  /\ high' = IF c \in 1..N THEN [high EXCEPT ![c] = Max(@, outst[c] + 1)] ELSE high
  /\ spill' = IF c = N + 1 THEN spill + 300 ELSE spill
  /\ UNCHANGED <<h, outst>> /\ Observe(0)

Do(e) == /\ ev' = e
         /\ CASE e.op = "Acquire" -> Acquire(e) [] e.op \in {"Release", "Destroy"} -> Release(e) [] e.op = "Swap" -> Swap(e)
              [] e.op = "Fill" -> Fill(e) [] e.op = "Churn" -> Churn(e)
Inputs(op) ==
  CASE op = "Acquire" -> {[op |-> op, h |-> x, s |-> s] : x \in Handles, s \in Sizes}
    [] op = "Churn" -> {[op |-> op, s |-> s] : s \in Sizes}
    [] op = "Swap" -> {[op |-> op, h |-> x, g |-> y] : x \in Handles, y \in Handles}
    [] OTHER -> {[op |-> op, h |-> x] : x \in Handles}
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars

Matches(o) == out' = o
Class == <<ev', pre, out'.size, IF ev'.op \in {"Churn"} THEN 0 ELSE h[ev'.h].cls>>

\* C18 on the specification
Held(i) == Cardinality({x \in Handles : h[x].cls = i})
C18 == /\ \A i \in 1..N : outst[i] = Held(i) /\ high[i] >= outst[i]
       /\ \A x \in Handles : h[x].cls \in 1..N => h[x].size <= Classes[h[x].cls]
Small == spill <= 2 /\ \A i \in 1..N : high[i] <= 3
=============================================================================
