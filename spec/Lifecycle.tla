---------------------------- MODULE Lifecycle ----------------------------
(* Starting, stopping and crashing.  Instances i1, i2 have a control socket,  *)
(* a port and a log directory each; an instance is started by its command     *)
(* line, ended by EXIT or a signal, and started again in whatever it left.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Insts, Slots, Args, Ops, Pres
VARIABLES run,    \* per instance: off, on (waits for commands), simple (started in the simplified mode)
          sock,   \* per instance: does its control socket's file exist
          lst,    \* per instance: does its port accept clients
          extra,  \* per instance: was it given configuration of its own since it started
          taken,  \* ports another program listens on
          con,    \* established connections: [i, k]
          ev, out, pre
core == <<run, sock, lst, extra, taken, con, pre>>
vars == <<run, sock, lst, extra, taken, con, ev, out, pre>>

Good == {"none", "simple", "verbose"}
Simple(a) == a = "simple"
\* incomplete simplified configurations, unknown options, verbosity out of range, help: nothing is started and nothing touched
Rc == [nolisten |-> 2, noport |-> 2, nodns |-> 2, unknown |-> 1, verbosity |-> 3, help |-> 1]

Seen(r, s, l, t, x) == [i \in Insts |-> [run |-> r[i] # "off", sock |-> s[i], port |-> IF i \in t THEN "other" ELSE IF l[i] THEN "proxy" ELSE "closed",
                                         conf |-> IF r[i] = "off" THEN "-" ELSE IF x[i] THEN "extra" ELSE IF r[i] = "simple" THEN "simple" ELSE "empty"]]
Say0(rc, said) == out' = [rc |-> rc, said |-> said, inst |-> Seen(run', sock', lst', taken', extra'), con |-> con']
InitAt(p) == /\ pre = p /\ run = [i \in Insts |-> "off"] /\ sock = [i \in Insts |-> FALSE] /\ lst = [i \in Insts |-> FALSE]
             /\ extra = [i \in Insts |-> FALSE] /\ taken = {} /\ con = {}
             /\ ev = [op |-> "Init"] /\ out = [rc |-> "-", said |-> "", inst |-> Seen(run, sock, lst, taken, extra), con |-> con]
Init == \E p \in Pres : InitAt(p)

Start(e) ==
  LET i == e.i IN
  /\ run[i] = "off"
  /\ IF e.a \in Good
     THEN /\ run' = [run EXCEPT ![i] = IF Simple(e.a) THEN "simple" ELSE "on"]
          /\ sock' = [sock EXCEPT ![i] = TRUE]
          /\ lst' = [lst EXCEPT ![i] = Simple(e.a) /\ i \notin taken]
          /\ extra' = [extra EXCEPT ![i] = FALSE]
          /\ UNCHANGED <<taken, con>> /\ Say0("running", "")
     ELSE /\ UNCHANGED <<run, sock, lst, extra, taken, con>> /\ Say0(ToString(Rc[e.a]), "")
Off(i) == /\ run' = [run EXCEPT ![i] = "off"] /\ lst' = [lst EXCEPT ![i] = FALSE] /\ extra' = [extra EXCEPT ![i] = FALSE]
          /\ con' = {c \in con : c.i # i} /\ UNCHANGED taken
Exit(e) == run[e.i] # "off" /\ Off(e.i) /\ sock' = [sock EXCEPT ![e.i] = FALSE] /\ Say0("0", "Exiting.")
Crash(e) == run[e.i] # "off" /\ Off(e.i) /\ UNCHANGED sock /\ Say0("-9", "")
\* A client: in the simplified mode every virtual host is sent to the destination
Conn(e) ==
  LET ok == lst[e.i] /\ ~(\E c \in con : c.k = e.k) IN
  /\ ~(\E c \in con : c.k = e.k) /\ e.i \notin taken
  /\ con' = (IF ok /\ run[e.i] = "simple" THEN con \cup {[i |-> e.i, k |-> e.k]} ELSE con)
  /\ UNCHANGED <<run, sock, lst, extra, taken>>
  /\ Say0("-", IF ~lst[e.i] THEN "closed" ELSE IF run[e.i] = "simple" THEN "open" ELSE "refused")
\* A client that stays in the middle of its handshake
Half(e) ==
  /\ ~(\E c \in con : c.k = e.k) /\ lst[e.i]
  /\ con' = con \cup {[i |-> e.i, k |-> e.k]}
  /\ UNCHANGED <<run, sock, lst, extra, taken>> /\ Say0("-", "start")
\* Killed while it starts: the socket's file may or may not be there
Abort(e) ==
  /\ run[e.i] = "off" /\ UNCHANGED <<run, lst, extra, taken, con>>
  /\ \E s \in BOOLEAN : sock' = [sock EXCEPT ![e.i] = s]
  /\ Say0("-9", "")
Close(e) == /\ \E c \in con : c.k = e.k
            /\ con' = {c \in con : c.k # e.k} /\ UNCHANGED <<run, sock, lst, extra, taken>> /\ Say0("-", "")
Occupy(e) == /\ ~lst[e.i]
             /\ taken' = (IF e.i \in taken THEN taken \ {e.i} ELSE taken \cup {e.i})
             /\ UNCHANGED <<run, sock, lst, extra, con>> /\ Say0("-", "")
\* configuration by command: gone with the process
Configure(e) == /\ run[e.i] # "off" /\ extra' = [extra EXCEPT ![e.i] = TRUE]
                /\ UNCHANGED <<run, sock, lst, taken, con>> /\ Say0("-", "")
Listen(e) == /\ run[e.i] # "off" /\ ~lst[e.i] /\ e.i \notin taken
             /\ lst' = [lst EXCEPT ![e.i] = TRUE] /\ UNCHANGED <<run, sock, extra, taken, con>> /\ Say0("-", "")
Do(e) == /\ ev' = e /\ pre' = pre
         /\ CASE e.op = "Start" -> Start(e) [] e.op = "Exit" -> Exit(e) [] e.op = "Crash" -> Crash(e) [] e.op = "Conn" -> Conn(e)
              [] e.op = "Close" -> Close(e) [] e.op = "Occupy" -> Occupy(e) [] e.op = "Configure" -> Configure(e) [] e.op = "Listen" -> Listen(e)
              [] e.op = "Half" -> Half(e) [] e.op = "Abort" -> Abort(e)
Vhs == {"v1", "a b", "long"}
RECURSIVE Inputs(_)
Inputs(op) ==
  CASE op = "Start" -> {[op |-> op, i |-> i, a |-> a] : i \in Insts, a \in Args}
    [] op \in {"Exit", "Crash", "Occupy", "Configure", "Listen"} -> {[op |-> op, i |-> i] : i \in Insts}
    [] op = "Conn" -> {[op |-> op, i |-> i, k |-> k, v |-> v] : i \in Insts, k \in Slots, v \in Vhs}
    [] op = "Half" -> {[op |-> op, i |-> i, k |-> k] : i \in Insts, k \in Slots}
    [] op = "Abort" -> {[op |-> op, i |-> i, d |-> d] : i \in Insts, d \in {0, 2, 5, 10, 20}}
    [] op = "Close" -> {[op |-> op, k |-> k] : k \in Slots}
    [] op = "Start2" -> {[op |-> "Start", i |-> i, a |-> "simple"] : i \in Insts}
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
Class == <<[ev' EXCEPT !.op = @], {<<run[i], sock[i], lst[i], extra[i], i \in taken>> : i \in Insts}, Cardinality(con), pre>>
SetOf(s) == {s[i] : i \in DOMAIN s}
Matches(o) == o.rc = out'.rc /\ o.said = out'.said /\ o.inst = out'.inst /\ SetOf(o.con) = out'.con

\* C22: one instance's doings are nothing to the other; an instance that is not running has no connections and no port;
\* what is left behind never matters to the next start
C22 == [][/\ \A i \in Insts : ("i" \in DOMAIN ev' /\ ev'.i # i) => run'[i] = run[i] /\ sock'[i] = sock[i] /\ lst'[i] = lst[i]
          /\ \A i \in Insts : run'[i] = "off" => ~lst'[i] /\ ~(\E c \in con' : c.i = i)
          /\ ev'.op = "Start" => (run'[ev'.i] # "off" <=> ev'.a \in Good)]_vars
=============================================================================
