------------------------------ MODULE Control ------------------------------
(* The control channel: commands and their answers, readers that take their   *)
(* time, and connections that listen to statistics.  A command is carried out *)
(* when its line is complete and its answer says what was so at that moment,  *)
(* however long it takes to be read; every report a listener gets is whole;   *)
(* and a reader that does not read holds up nobody else.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Groups,    \* groups of (long) virtual host names that may be mapped, together, one command each
          Conns, Hows, Filters, Ops, Pres
VARIABLES maps,      \* the groups mapped
          con,       \* control connections: none, ask (an answer is being withheld), listen
          ev, out, pre
core == <<maps, con, pre>>
vars == <<maps, con, ev, out, pre>>
Free == [st |-> "none", snap |-> {}, read |-> FALSE, f |-> "-"]
None == [ans |-> "none", snap |-> {}, fed |-> {}, bad |-> {}]
InitAt(p) == /\ pre = p /\ maps = {} /\ con = [k \in Conns |-> Free] /\ ev = [op |-> "Init"] /\ out = None
Init == \E p \in Pres : InitAt(p)

\* A group is mapped or unmapped by as many commands as it has names, one after the other
Fill(e) == /\ maps' = (IF e.g \in maps THEN maps \ {e.g} ELSE maps \cup {e.g})
           /\ out' = [None EXCEPT !.ans = "all"] /\ UNCHANGED con
\* MAP PRINT, read at once; the line comes whole, byte by byte, with CR LF, or the sending side is shut after it
Ask(e) == out' = [None EXCEPT !.ans = "print", !.snap = maps] /\ UNCHANGED <<maps, con>>
\* an unknown verb, a known one in small letters
Odd(e) == out' = [None EXCEPT !.ans = IF e.t = "unknown" THEN "help" ELSE "print", !.snap = IF e.t = "unknown" THEN {} ELSE maps] /\ UNCHANGED <<maps, con>>
\* asked now, read later
Slow(e) == /\ con[e.k].st = "none"
           /\ con' = [con EXCEPT ![e.k] = [Free EXCEPT !.st = "ask", !.snap = maps]] /\ out' = None /\ UNCHANGED maps
Late(e) == /\ con[e.k].st = "ask"
           /\ out' = [None EXCEPT !.ans = "print", !.snap = con[e.k].snap]
           /\ con' = [con EXCEPT ![e.k] = Free] /\ UNCHANGED maps
\* gives up on whatever it wanted
Drop(e) == con[e.k].st # "none" /\ con' = [con EXCEPT ![e.k] = Free] /\ out' = None /\ UNCHANGED maps
Listen(e) == /\ con[e.k].st = "none"
             /\ con' = [con EXCEPT ![e.k] = [Free EXCEPT !.st = "listen", !.read = TRUE, !.f = e.f]] /\ out' = None /\ UNCHANGED maps
Hold(e) == /\ con[e.k].st = "listen"
           /\ con' = [con EXCEPT ![e.k].read = ~@] /\ out' = None /\ UNCHANGED maps
\* time for several reports: every listener that reads gets whole ones, those that were missed meanwhile first
Pass(e) == out' = [None EXCEPT !.fed = {k \in Conns : con[k].st = "listen" /\ con[k].read}] /\ UNCHANGED <<maps, con>>
Do(e) == /\ ev' = e /\ pre' = pre
         /\ CASE e.op = "Fill" -> Fill(e) [] e.op = "Ask" -> Ask(e) [] e.op = "Odd" -> Odd(e) [] e.op = "Slow" -> Slow(e) [] e.op = "Late" -> Late(e)
              [] e.op = "Drop" -> Drop(e) [] e.op = "Listen" -> Listen(e) [] e.op = "Hold" -> Hold(e) [] e.op = "Pass" -> Pass(e)
RECURSIVE Inputs(_)
Inputs(op) ==
  CASE op = "Fill" -> {[op |-> op, g |-> g] : g \in Groups}
    [] op = "Ask" -> {[op |-> op, how |-> h] : h \in Hows}
    [] op = "Odd" -> {[op |-> op, t |-> t] : t \in {"unknown", "small"}}
    [] op \in {"Slow", "Late", "Drop", "Hold"} -> {[op |-> op, k |-> k] : k \in Conns}
    [] op = "Listen" -> {[op |-> op, k |-> k, f |-> f] : k \in Conns, f \in Filters}
    [] op = "Pass" -> {[op |-> op]}
    [] op = "Pass2" -> Inputs("Pass")
    [] op = "Hold2" -> Inputs("Hold")
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
Class == <<ev', Cardinality(maps), {<<con[k].st, con[k].read>> : k \in Conns}, pre>>
SetOf(s) == {s[i] : i \in DOMAIN s}
Matches(o) == /\ "died" \notin DOMAIN o /\ o.ans = out'.ans /\ SetOf(o.snap) = out'.snap /\ SetOf(o.fed) = out'.fed /\ o.bad = <<>>

\* Answers are of the moment their command was carried out, whatever happens before they are read; nobody is starved
C15 == [][/\ ev'.op \in {"Ask", "Odd"} => out'.snap \in {{}, maps}
          /\ \A k \in Conns : con[k].st = "ask" => con'[k] = con[k] \/ (con'[k] = Free /\ ev'.k = k)
          /\ ev'.op # "Fill" => maps' = maps]_vars
C16 == [][ev'.op = "Pass" => \A k \in Conns : con[k].st = "listen" /\ con[k].read => k \in out'.fed]_vars
=============================================================================
