------------------------------- MODULE Relay -------------------------------
(* The byte streams of open connections.  Every connection has an upstream    *)
(* ("c1u", client to broker) and a downstream ("c1d").  A sender writes whole *)
(* and partial frames in any segmentation; a receiver may stop reading and    *)
(* resume.  After every step the driver reports how many bytes each receiver  *)
(* has, whether they are the ones sent (compared byte by byte), and which     *)
(* receivers saw the end of their stream.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Kinds,     \* how the connections are made: plain, tlsin, tlsout, tls
          Conns, Sizes, Cuts, Ops, Bulk
VARIABLES sent, full, got, part, stall, dead, ev, out, pre
core == <<sent, full, got, part, stall, dead, pre>>
vars == <<sent, full, got, part, stall, dead, ev, out, pre>>

Up(c) == c \o "u"
Dn(c) == c \o "d"
Streams == {Up(c) : c \in Conns} \cup {Dn(c) : c \in Conns}
ConnOf(s) == CHOOSE c \in Conns : s \in {Up(c), Dn(c)}
Rev(s) == LET c == ConnOf(s) IN IF s = Up(c) THEN Dn(c) ELSE Up(c)
Live == {s \in Streams : ConnOf(s) \notin dead}

InitAt(p) == /\ pre = p
             /\ sent = [s \in Streams |-> 0] /\ full = sent /\ got = sent
             /\ part = [s \in Streams |-> [size |-> 0, have |-> 0]]
             /\ stall = {} /\ dead = {}
             /\ ev = [op |-> "Init"] /\ out = [got |-> got, ok |-> TRUE, eof |-> {}]
Init == \E p \in Kinds : InitAt(p)

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))

\* Everything that completes a frame is passed on at once to whoever reads
Flow == /\ got' = [s \in Streams |-> IF s \in stall' THEN got[s] ELSE full'[s]]
        /\ out' = [got |-> got', ok |-> TRUE, eof |-> {s \in Streams : ConnOf(s) \in dead'}]
        /\ pre' = pre

\* Finish (some of) the frame begun before, then whole frames, then the beginning of another
Write(e) ==
  LET s == e.s   p == part[s]
      done == p.have + e.more = p.size
      tot == e.more + Sum(e.fs) + e.have IN
  /\ s \in Live
  /\ e.more <= p.size - p.have
  /\ (e.fs # <<>> \/ e.have > 0) => done
  /\ tot > 0 /\ e.have < e.size
  /\ sent' = [sent EXCEPT ![s] = @ + tot]
  /\ full' = IF done THEN [full EXCEPT ![s] = sent[s] + e.more + Sum(e.fs)] ELSE full
  /\ part' = [part EXCEPT ![s] = IF ~done THEN [p EXCEPT !.have = @ + e.more]
                                 ELSE IF e.have > 0 THEN [size |-> e.size, have |-> e.have]
                                 ELSE [size |-> 0, have |-> 0]]
  /\ UNCHANGED <<stall, dead>> /\ Flow

AtBoundary(s) == part[s].size = 0
More(f, S, n) == [s \in Streams |-> IF s \in S THEN f[s] + n ELSE f[s]]
\* n frames of size z, written in pieces that ignore the frame boundaries
Dribble(e) ==
  /\ e.s \in Live /\ AtBoundary(e.s)
  /\ sent' = More(sent, {e.s}, e.n * e.z) /\ full' = More(full, {e.s}, e.n * e.z)
  /\ UNCHANGED <<part, stall, dead>> /\ Flow
\* the same on all streams at once
All(e) ==
  LET S == {s \in Live : AtBoundary(s)} IN
  /\ S # {}
  /\ sent' = More(sent, S, e.n * e.z) /\ full' = More(full, S, e.n * e.z)
  /\ UNCHANGED <<part, stall, dead>> /\ Flow
Stall(e) == /\ e.s \in Live \ stall /\ stall' = stall \cup {e.s}
            /\ UNCHANGED <<sent, full, part, dead>> /\ Flow
Resume(e) == /\ e.s \in stall /\ stall' = stall \ {e.s}
             /\ UNCHANGED <<sent, full, part, dead>> /\ Flow
\* n frames and the beginning of another, then at once the orderly end of the stream
Last(e) ==
  /\ e.s \in Live /\ AtBoundary(e.s) /\ stall \cap {e.s, Rev(e.s)} = {}
  /\ sent' = More(sent, {e.s}, e.n * e.z + e.have) /\ full' = More(full, {e.s}, e.n * e.z)
  /\ dead' = dead \cup {ConnOf(e.s)}
  /\ UNCHANGED <<part, stall>> /\ Flow

Do(e) == /\ ev' = e
         /\ CASE e.op = "Write" -> Write(e) [] e.op = "Dribble" -> Dribble(e) [] e.op = "All" -> All(e)
              [] e.op = "Stall" -> Stall(e) [] e.op = "Resume" -> Resume(e) [] e.op = "Last" -> Last(e)

CutsOf(z) == {k \in Cuts \cup {z \div 2, z - 1} : k < z}
Inputs(op) ==
  CASE op = "Write" ->
         UNION {LET p == part[s]   rest == p.size - p.have
                    finish == {[op |-> op, s |-> s, more |-> rest, fs |-> fs, size |-> z, have |-> k] :
                                 fs \in {<<>>} \cup {<<a>> : a \in Sizes} \cup {<<a, 8, a>> : a \in Sizes},
                                 z \in {1}, k \in {0}}
                    begin == UNION {{[op |-> op, s |-> s, more |-> rest, fs |-> fs, size |-> z, have |-> k] :
                                 fs \in {<<>>, <<8>>, <<z>>}, k \in CutsOf(z)} : z \in Sizes}
                    some == {[op |-> op, s |-> s, more |-> k, fs |-> <<>>, size |-> 1, have |-> 0] :
                                 k \in {k \in {1, 7, rest \div 2, rest - 1} : k > 0 /\ k < rest}} IN
                finish \cup begin \cup (IF rest > 1 THEN some ELSE {}) : s \in Live}
    [] op = "Dribble" -> {[op |-> op, s |-> s, n |-> nz[1], z |-> nz[2]] : s \in Live, nz \in Bulk}
    [] op = "All" -> {[op |-> op, n |-> nz[1], z |-> nz[2]] : nz \in Bulk}
    [] op = "Last" -> {[op |-> op, s |-> s, n |-> nz[1], z |-> nz[2], have |-> k] : s \in Live, nz \in Bulk, k \in {0, 1, 7}}
    [] OTHER -> {[op |-> op, s |-> s] : s \in Streams}
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars

Matches(o) == /\ o.got = out'.got /\ o.ok = out'.ok
              /\ {o.eof[i] : i \in DOMAIN o.eof} = out'.eof
Class == IF ev'.op = "Write"
         THEN LET p == part[ev'.s]   fresh == p.size = 0 IN
              <<"Write", pre, p, p.have + ev'.more = p.size, Len(ev'.fs), IF fresh THEN ev'.size ELSE 0, IF fresh THEN ev'.have ELSE 0,
                ev'.s \in stall, ev'.s \in {Up(c) : c \in Conns}>>
         ELSE <<ev', stall, dead, {s \in Streams : AtBoundary(s)}, pre>>

\* C01 on the specification
C01 == \A s \in Streams : /\ got[s] <= full[s] /\ full[s] <= sent[s]
                          /\ (s \notin stall => got[s] = full[s])
                          /\ sent[s] - full[s] = part[s].have \/ ConnOf(s) \in dead
C01Step == [][\A s \in Streams : got'[s] >= got[s] /\ (ConnOf(s) \in dead => got'[s] = got[s])]_vars
\* for model checking: only differences of the counters matter
View == <<[s \in Streams |-> full[s] - got[s]], part, stall, dead, pre>>
Small == \A s \in Streams : full[s] - got[s] <= 20
\* constants a configuration file cannot express
BulkTiny == {<<2, 9>>}
BulkQuick == {<<30, 300>>, <<600, 8>>, <<12, 40000>>, <<3, 150000>>, <<50, 131072>>}
BulkSmall == {<<30, 300>>, <<600, 8>>, <<12, 40000>>}
=============================================================================
