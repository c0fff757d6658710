------------------------------- MODULE Codec -------------------------------
(* Decoding and encoding of AMQP by the code: Amqp.tla says what is right.    *)
EXTENDS Amqp
CONSTANTS Ops, Kinds
VARIABLES ev, out, pre
core == <<pre>>
vars == <<ev, out, pre>>

Bytes(e) == Change(Change(Message(e.kind, e.is), e.m, e.i, e.b), e.m2, e.i2, e.b2)

AllKinds == Kinds
Some == {0, 1, 4, 127, 128, 255, 65, 70, 83, 206}
Long1 == {<<i>> : i \in 1..N}
Inputs(op) ==
  CASE op = "Good" -> {[op |-> "Codec", kind |-> k, is |-> is, m |-> "none", i |-> 0, b |-> 0, m2 |-> "none", i2 |-> 0, b2 |-> 0, room |-> r] : k \in AllKinds, is \in {<<>>} \cup Long1, r \in 0..6}
    [] op = "Cut" -> UNION {{[op |-> "Codec", kind |-> k, is |-> is, m |-> "cut", i |-> i, b |-> 0, m2 |-> "none", i2 |-> 0, b2 |-> 0, room |-> 0] : i \in 0..(Len(Message(k, is)) - 1)} : k \in AllKinds, is \in Long1}
    [] op = "Set" -> UNION {{[op |-> "Codec", kind |-> k, is |-> is, m |-> m, i |-> i, b |-> b, m2 |-> "none", i2 |-> 0, b2 |-> 0, room |-> 0] : i \in 0..(Len(Message(k, is)) - 1), b \in {1, 255}, m \in {"bump"}} : k \in AllKinds, is \in Long1}
    [] op = "Rnd" -> {[op |-> "Codec", kind |-> RandomElement(AllKinds), is |-> [j \in 1..RandomElement(0..5) |-> RandomElement(1..N)],
                       m |-> RandomElement({"none", "none", "cut", "set", "add", "del", "bump"}), i |-> RandomElement(0..150), b |-> RandomElement(Some \cup {RandomElement(0..255)}),
                       m2 |-> RandomElement({"none", "nothing", "zilch", "set", "add", "del", "bump"}), i2 |-> RandomElement(0..150), b2 |-> RandomElement(Some), room |-> RandomElement(0..60)]}
    [] op = "Deep" -> [op : {"Deep"}, kind : {"startok", "start", "table"}, type : {"F", "A"}, n : {3, 30, 1000, 20000}]
    [] OTHER -> {}

InitAt(p) == pre = p /\ ev = [op |-> "Init"] /\ out = [ok |-> TRUE, rest |-> 0, enc |-> <<>>, fits |-> TRUE]
Init == InitAt("codec")
\* What decoding these bytes says, and writing the value back where `room` bytes are missing
Answer(kind, s, room) ==
  IF kind = "frame" THEN
    LET f == Frames(s) IN [ok |-> f.is, rest |-> IF f.is = "frame" THEN Len(s) - f.n ELSE 0, enc |-> IF f.is = "frame" THEN SubSeq(s, 1, f.n) ELSE <<>>, fits |-> f.is = "frame"]
  ELSE
    LET d == Decode(Parts[kind], s)  w == IF d.ok THEN Written(kind, d.v) ELSE <<>>  cap == Len(w) - room  f == d.ok /\ (room = 0) IN
    [ok |-> d.ok, rest |-> IF d.ok THEN Len(s) - d.n ELSE 0, enc |-> IF f THEN w ELSE <<>>, fits |-> f]
Do(e) ==
  /\ IF e.op = "Deep"
     THEN ev' = e /\ out' = [ok |-> e.n <= 30, rest |-> 0, enc |-> <<>>, fits |-> TRUE]
     ELSE LET s == IF "bytes" \in DOMAIN e THEN e.bytes ELSE Bytes(e) IN
          /\ ev' = [op |-> "Codec", kind |-> e.kind, m |-> e.m, room |-> e.room, bytes |-> s]
          /\ out' = Answer(e.kind, s, e.room)
  /\ UNCHANGED pre
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
Class == ev'

\* On the specification: what was written by the rules reads back as the same value and is used up; nothing shorter does
C21 == [][ev'.op = "Codec" /\ ev'.kind # "frame" =>
            LET s == ev'.bytes  d == Decode(Parts[ev'.kind], s) IN
            /\ (ev'.m = "none" => d.ok /\ (ev'.kind = "open" \/ out'.rest = 0))
            /\ (ev'.m = "cut" /\ ev'.kind # "open" => ~d.ok)
            /\ d.n <= Len(s)
            /\ (d.ok => LET w == Written(ev'.kind, d.v)  e == Decode(Parts[ev'.kind], w) IN
                        /\ e.ok
                        /\ (ev'.kind # "openok" => e.v = d.v)
                        /\ (ev'.kind \notin {"open", "openok"} => Len(w) = d.n /\ e.n = d.n)
                        /\ (ev'.m = "none" => w = s))]_vars

Deep(o) == "died" \notin DOMAIN o /\ (out'.ok => o.ok) /\ (o.ok => o.fits)
Matches(o) == IF ev'.op = "Deep" THEN Deep(o)
              ELSE "died" \notin DOMAIN o /\ o.ok = out'.ok /\ o.fits = out'.fits /\ o.enc = out'.enc /\ o.rest = out'.rest
=============================================================================
