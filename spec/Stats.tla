------------------------------- MODULE Stats -------------------------------
(* Statistics: what each report says, overall and per virtual host, backend   *)
(* and source, over any history of connections, traffic and reports.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS S,          \* connection slots
          Srcs, Routes, \* sources; <<virtual host, backend>> pairs
          Amounts,    \* <<frames, bytes, ms>> that may pass in one go
          Kinds,      \* how connections end
          Flags,      \* what may be said of a connection
          Mids,       \* things that may happen while a report is being made
          Cols,       \* the figures that are compared
          OpenF, OpenB, \* frames and bytes that opening a connection relays to the client
          Ops, Pres
VARIABLES ses, busy, pers, had,   \* connections, slots not to be reused before the next report; are sources reported, were they when the last report was made
          owed,             \* history: what has happened, less what has been reported, overall
          ev, out, pre
core == <<ses, busy, pers, had, pre>>
vars == <<ses, busy, pers, had, owed, ev, out, pre>>
None == [st |-> "none"]
Zero == [i \in 1..10 |-> 0]
\* columns: 1-2 packets, 3-4 frames, 5-6 bytes, 7-10 latency (received, sent);
\* 11 paused, 12 active, 13 denied, 14 limited, 15 graceful, 16 broker, 17 client
Row0 == [i \in 1..17 |-> 0]

\* sets for the configurations
R2 == {<<"v1", "b1">>, <<"v2", "b1">>}
R5 == {<<"v1", "b1">>, <<"v11", "b1">>, <<"v1", "b2">>, <<"v2", "b3">>, <<"", "-">>}
RS == {<<"v1", "b1">>, <<"v11", "b1">>, <<"v2", "b2">>, <<"v3", "b3">>}
A1 == {<<1, 2, 0>>}
A4 == {<<1, 8, 0>>, <<0, 0, 5>>, <<3, 1000, 2>>, <<2, 70000, 1>>}
AS == {<<1, 8, 0>>, <<3, 24, 0>>, <<2, 5000, 0>>, <<1, 20000, 0>>}

InitAt(p) == /\ pre = p /\ ses = [s \in S |-> None] /\ busy = {} /\ pers = TRUE /\ had = TRUE
             /\ owed = Row0
             /\ ev = [op |-> "Init"] /\ out = [ov |-> Row0, v |-> {}, b |-> {}, s |-> {}]
Init == \E p \in Pres : InitAt(p)

Alive(s) == ses[s].st = "live"
Quiet == out' = [ov |-> Row0, v |-> {}, b |-> {}, s |-> {}]
Bump(r, c, n) == [r EXCEPT ![c] = @ + n]

Add(t, d, a) == LET k == IF d = "in" THEN 0 ELSE 1 IN
  [t EXCEPT ![1 + k] = @ + 1, ![3 + k] = @ + a[1], ![5 + k] = @ + a[2], ![7 + 2 * k] = @ + a[3], ![8 + 2 * k] = @ + 1]
AddRow(r, d, a) == [i \in 1..17 |-> IF i <= 10 THEN Add([j \in 1..10 |-> r[j]], d, a)[i] ELSE r[i]]
EndCol(k) == CASE k = "client" -> 17 [] k = "server" -> 16 [] OTHER -> 15

Open(e) ==
  /\ ses[e.s].st = "none" /\ e.s \notin busy
  /\ ses' = [ses EXCEPT ![e.s] = [st |-> "live", src |-> e.src, v |-> e.r[1], b |-> e.r[2], old |-> FALSE, kind |-> "", fl |-> {},
                                  tot |-> IF OpenF = 0 THEN Zero ELSE Add(Zero, "out", <<OpenF, OpenB, 0>>)]]
  /\ owed' = IF OpenF = 0 THEN owed ELSE AddRow(owed, "out", <<OpenF, OpenB, 0>>)
  /\ UNCHANGED <<busy, pers, had>> /\ Quiet
Traffic(e) ==
  /\ Alive(e.s) /\ "paused" \notin ses[e.s].fl
  /\ ses' = [ses EXCEPT ![e.s].tot = Add(@, e.d, e.a)]
  /\ owed' = AddRow(owed, e.d, e.a)
  /\ UNCHANGED <<busy, pers, had>> /\ Quiet
Flag(e) ==
  /\ Alive(e.s)
  /\ ses' = [ses EXCEPT ![e.s].fl = IF e.f = "unpause" THEN @ \ {"paused"} ELSE @ \cup {e.f}]
  /\ UNCHANGED <<busy, pers, had, owed>> /\ Quiet
Ended(ss, s, k) == [ss EXCEPT ![s].st = "ended", ![s].kind = k]
\* (a paused connection does not complete a graceful close)
End(e) ==
  /\ Alive(e.s) /\ ~(e.k = "clean" /\ "paused" \in ses[e.s].fl)
  /\ ses' = Ended(ses, e.s, e.k)
  /\ owed' = Bump(owed, EndCol(e.k), 1)
  /\ UNCHANGED <<busy, pers, had>> /\ Quiet
\* A connection that is refused before it reaches a backend
Refuse(e) ==
  /\ ses[e.s].st = "none" /\ e.s \notin busy
  /\ ses' = [ses EXCEPT ![e.s] = [st |-> "ended", src |-> e.src, v |-> e.v, b |-> "-", old |-> FALSE, kind |-> "proxy",
                                  fl |-> IF e.how = "limit" THEN {"limited"} ELSE IF e.how = "deny" THEN {"denied"} ELSE {}, tot |-> Zero]]
  /\ owed' = Bump(owed, 15, 1)
  /\ UNCHANGED <<busy, pers, had>> /\ Quiet
PerSource(e) == pers' = e.on /\ UNCHANGED <<ses, busy, had, owed>> /\ Quiet

RECURSIVE SumOver(_, _)
SumOver(f(_), ss) == IF ss = {} THEN 0 ELSE LET x == CHOOSE y \in ss : TRUE IN f(x) + SumOver(f, ss \ {x})
Has(b) == IF b THEN 1 ELSE 0
Col(ss, i, s) ==
  LET c == ss[s] IN
  IF i <= 10 THEN c.tot[i]
  ELSE CASE i = 11 -> Has("paused" \in c.fl) [] i = 12 -> Has(c.st = "live") [] i = 13 -> Has("denied" \in c.fl)
         [] i = 14 -> Has("limited" \in c.fl) [] OTHER -> Has(c.st = "ended" /\ EndCol(c.kind) = i)
Row(ss, which) == [i \in 1..17 |-> IF i \in Cols THEN LET f(s) == Col(ss, i, s) IN SumOver(f, which) ELSE 0]
View(ss, key(_)) ==
  LET in == {s \in S : ss[s].st # "none"} IN
  {x \in {<<k, Row(ss, {s \in in : key(s) = k})>> : k \in {key(s) : s \in in}} : x[2] # Row0}
Figures(ss) ==
  [ov |-> Row(ss, {s \in S : ss[s].st # "none"}),
   v |-> LET k(s) == ss[s].v IN View(ss, k), b |-> LET k(s) == ss[s].b IN View(ss, k),
   s |-> LET k(s) == ss[s].src IN IF pers /\ had THEN View(ss, k) ELSE {}]
\* What happens meanwhile is in this report or in the next one
Mid(ss, m) == IF m.w = "end" THEN Ended(ss, m.s, m.k) ELSE [ss EXCEPT ![m.s].tot = Add(@, m.d, m.a)]
MidOk(m) == IF m.w = "no" THEN TRUE ELSE Alive(m.s) /\ (m.w = "end" \/ "paused" \notin ses[m.s].fl)
Report(e) ==
  /\ MidOk(e.m)
  /\ \E seen \in IF e.m.w = "no" THEN {TRUE} ELSE BOOLEAN :
       LET now == IF e.m.w # "no" /\ seen THEN Mid(ses, e.m) ELSE ses
           rep == [s \in S |-> IF now[s].st = "live" THEN [now[s] EXCEPT !.old = @ \/ now[s].tot # Zero, !.tot = Zero] ELSE None] IN
       /\ out' = Figures(now)
       /\ ses' = IF e.m.w # "no" /\ ~seen THEN Mid(rep, e.m) ELSE rep
       /\ LET was == IF e.m.w = "no" THEN owed ELSE IF e.m.w = "end" THEN Bump(owed, EndCol(e.m.k), 1) ELSE AddRow(owed, e.m.d, e.m.a) IN
          owed' = [i \in 1..17 |-> IF i \in Cols /\ i \notin 11..14 THEN was[i] - out'.ov[i] ELSE was[i]]
  /\ busy' = (IF e.m.w = "end" THEN {e.m.s} ELSE {})
  /\ had' = pers /\ UNCHANGED pers

NoMid == [w |-> "no"]
Inputs(op) ==
  CASE op \in {"Open", "Open2"} -> [op : {"Open"}, s : S, src : Srcs, r : Routes]
    [] op \in {"Traffic", "More"} -> [op : {"Traffic"}, s : S, d : {"in", "out"}, a : Amounts]
    [] op = "Flag" -> [op : {"Flag"}, s : S, f : Flags]
    [] op = "End" -> [op : {"End"}, s : S, k : Kinds]
    [] op = "Refuse" -> [op : {"Refuse"}, s : S, src : Srcs, v : {"vl"}, how : {"limit"}] \cup [op : {"Refuse"}, s : S, src : Srcs, v : {"vn"}, how : {"nomap"}]
    [] op = "PerSource" -> [op : {"PerSource"}, on : BOOLEAN]
    [] op \in {"Report", "Report2"} -> [op : {"Report"}, m : {NoMid}]
    [] op = "Mid" -> [op : {"Report"}, m : {[w |-> "end", s |-> s, k |-> k] : s \in S, k \in Kinds} \cup
                                          {[w |-> "traffic", s |-> s, d |-> d, a |-> a] : s \in S, d \in {"in", "out"}, a \in Amounts}]
    [] OTHER -> {}
Do(e) ==
  /\ CASE e.op = "Open" -> Open(e) [] e.op = "Traffic" -> Traffic(e) [] e.op = "Flag" -> Flag(e) [] e.op = "End" -> End(e)
       [] e.op = "Refuse" -> Refuse(e) [] e.op = "PerSource" -> PerSource(e) [] OTHER -> Report(e)
  /\ ev' = e /\ UNCHANGED pre
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
Class == <<ev', pers, had, {[st |-> ses[s].st, v |-> IF ses[s].st = "none" THEN "" ELSE ses[s].v, rep |-> ses[s].st # "none" /\ ses[s].old] : s \in S}>>

RECURSIVE Pending(_)
Pending(ss) == IF ss = {} THEN Row0
  ELSE LET s == CHOOSE x \in ss : TRUE
           p == Pending(ss \ {s}) IN
       IF ses[s].st = "none" THEN p ELSE [i \in 1..17 |-> IF i <= 10 \/ i >= 15 THEN p[i] + Col(ses, i, s) ELSE 0]
\* everything that happened has been reported once or will be in the next report
C16 == \A i \in Cols : (i <= 10 \/ i >= 15) => owed[i] = Pending(S)[i]
\* the views of one report agree: each adds up to the overall figures
RECURSIVE SumView(_)
SumView(w) == IF w = {} THEN Row0 ELSE LET x == CHOOSE y \in w : TRUE IN [i \in 1..17 |-> x[2][i] + SumView(w \ {x})[i]]
Agree == [][/\ SumView(out'.v) = out'.ov /\ SumView(out'.b) = out'.ov /\ (out'.s = {} \/ SumView(out'.s) = out'.ov)
            /\ \A i \in 1..17 : out'.ov[i] >= 0]_vars
Max == 2
Bounded == owed[1] + owed[2] <= Max /\ owed[15] + owed[16] + owed[17] <= Max
McView == <<ses, busy, pers, had, owed>>

Matches(o) == /\ "died" \notin DOMAIN o
              /\ o.ov = out'.ov
              /\ {o.v[i] : i \in DOMAIN o.v} = out'.v
              /\ {o.b[i] : i \in DOMAIN o.b} = out'.b
              /\ {o.s[i] : i \in DOMAIN o.s} = out'.s
=============================================================================
