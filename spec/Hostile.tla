------------------------------ MODULE Hostile ------------------------------
(* Peers that send anything: one connection at a time is brought to a stage   *)
(* of its life by the book, then its client or broker sends bytes of its      *)
(* choosing.  Amqp.tla says what the bytes are worth; a second connection     *)
(* and the control socket must not notice.                                    *)
EXTENDS Amqp
CONSTANTS Ops, Variants, Most     \* stages under attack; at most this many bad connections linger
VARIABLES linger, ev, out, pre
core == <<linger, pre>>
vars == <<linger, ev, out, pre>>

Client == {"header", "startok", "tuneok", "open", "cbstart", "cbopenok", "crelay"}   \* the client misbehaves; c... : while the broker is at ...
Broker == {"bstart", "btune", "bopenok", "brelay"}
Stages == Client \cup Broker

Hdr == <<65, 77, 81, 80, 0, 0, 9, 1>>
Old == <<65, 77, 81, 80, 1, 1, 0, 9>>
M(c, m, args) == <<c \div 256, c % 256, m \div 256, m % 256>> \o args
Fr(ty, ch, pl) == <<ty, ch \div 256, ch % 256>> \o Long(pl) \o <<206>>
Vh == <<118>>      \* the virtual host "v"
Book(st, is) ==    \* what the book says this side sends at this stage
  CASE st = "header" -> Hdr
    [] st = "startok" -> Fr(1, 0, M(10, 11, Message("startok", is)))
    [] st = "tuneok" -> Fr(1, 0, M(10, 31, <<0, 0, 0, 2, 0, 0, 0, 60>>))
    [] st = "open" -> Fr(1, 0, M(10, 40, Short(Vh) \o <<0, 0>>))
    [] st = "bstart" -> Fr(1, 0, M(10, 10, Message("start", is)))
    [] st = "btune" -> Fr(1, 0, M(10, 30, <<0, 0, 0, 2, 0, 0, 0, 60>>))
    [] st = "bopenok" -> Fr(1, 0, M(10, 41, <<0>>))
    [] is = <<22>> -> Fr(3, 1, Num(9)) [] is = <<17, 22>> -> Fr(2, 1, Num(14)) [] is = <<24, 25, 9>> -> Fr(8, 0, <<>>)
    [] OTHER -> Fr(1, 1, M(60, 40, Num(4 + Len(is))))     \* some publish
Open9(f) == [f EXCEPT ![Len(f)] = 0]
\* what a misbehaving side may send by design
Odd(k) ==
  CASE k = 1 -> Fr(8, 0, <<>>)                              \* heartbeat
    [] k = 2 -> Fr(1, 0, <<>>)  [] k = 3 -> Fr(1, 0, <<0, 10, 0>>)        \* no room for a method
    [] k = 4 -> Fr(1, 1, M(20, 10, <<0>>)) [] k = 5 -> Fr(3, 1, Num(20)) [] k = 6 -> Fr(77, 65535, Num(3))
    [] k = 7 -> Fr(1, 0, M(10, 99, <<>>)) [] k = 8 -> Fr(1, 0, M(10, 51, <<>>))
    [] k = 9 -> Fr(1, 0, M(10, 50, B2(320) \o Short(Abc(9)) \o B2(0) \o B2(0)))
    [] k = 10 -> Fr(1, 0, M(10, 50, B2(320) \o <<200>> \o Abc(9)))
    [] k = 11 -> Fr(1, 0, M(10, 20, Long(Abc(4)))) [] k = 12 -> Fr(1, 0, M(10, 60, <<1, 0>>))
    [] k = 13 -> <<1, 0, 0, 255, 255, 255, 255>> \o Num(9)
    [] k = 14 -> <<1, 0, 0, 0, 2, 73, 233>> \o Num(9)      \* one too many for a frame of 150000
    [] k = 15 -> Fr(2, 1, Num(14)) [] k = 16 -> Num(40)
    \* complete but for the mark of the end
    [] k = 17 -> Open9(Fr(8, 0, <<>>)) [] k = 18 -> Open9(Fr(3, 1, Num(20))) [] k = 19 -> Open9(Fr(2, 1, Num(14))) [] k = 20 -> Open9(Fr(77, 9, Num(3)))
    [] k = 21 -> Open9(Fr(1, 1, M(20, 10, <<0>>))) [] k = 22 -> Fr(8, 0, Num(3))
    [] OTHER -> <<>>

---- (* how the bytes move the connection *)
\* the method expected at a stage, its arguments, the stage after it
Expects == [startok |-> <<11, "startok", "tuneok">>, tuneok |-> <<31, "tuneok", "open">>, open |-> <<40, "open", "bstart">>,
            bstart |-> <<10, "start", "btune">>, btune |-> <<30, "tune", "bopenok">>]
\* w: [st, left, free]: where the connection is, the bytes not yet used, whether it may as well have been closed
RECURSIVE Walk(_, _, _, _)
Walk(side, st, s, free) ==
  IF st \in {"closed", "refused"} THEN [st |-> st, left |-> <<>>, free |-> free, good |-> 0]
  ELSE LET f == Frames(s) IN
  CASE f.is = "more" -> [st |-> st, left |-> s, free |-> free, good |-> 0]
    [] f.is = "bad" -> [st |-> "closed", left |-> <<>>, free |-> free, good |-> 0]
    [] OTHER ->
       LET pl == SubSeq(s, 8, f.n - 1)  rest == Rest(s, f.n)  skip == Walk(side, st, rest, free) IN
       IF st = "relay" THEN [skip EXCEPT !.good = @ + f.n]
       ELSE IF s[1] # 1 THEN skip
       ELSE IF Len(pl) < 4 THEN Walk(side, st, rest, TRUE)
       ELSE IF SubSeq(pl, 1, 2) # <<0, 10>> THEN skip
       ELSE LET m == pl[3] * 256 + pl[4]  args == SubSeq(pl, 5, Len(pl)) IN
            IF side = "client" /\ st \in {"bstart", "btune"} THEN Walk(side, "closed", rest, free)
            ELSE IF side = "client" /\ st = "bopenok" THEN skip
            ELSE IF st = "bopenok"
                 THEN (CASE m = 41 -> Walk(side, "relay", rest, free)
                         [] m = 50 -> Walk(side, "closed", rest, free)
                         [] OTHER -> skip)
            ELSE LET x == Expects[st]  d == Decode(Parts[x[2]], args) IN
                 IF m # x[1] \/ ~d.ok THEN Walk(side, "closed", rest, free)
                 ELSE IF st = "open" /\ d.v[1] # Vh THEN Walk(side, "refused", rest, free \/ rest # <<>>)
                 ELSE Walk(side, x[3], rest, free)
Side(st) == IF st \in Client THEN "client" ELSE "broker"
At(st) == CASE st = "cbstart" -> "bstart" [] st = "cbopenok" -> "bopenok" [] st \in {"crelay", "brelay"} -> "relay" [] OTHER -> st
\* The protocol header is not a frame
Header(s) ==
  IF Len(s) < 8 THEN [st |-> "header", left |-> s, free |-> FALSE, good |-> 0]
  ELSE [st |-> IF s \in {Hdr, Old} THEN "startok" ELSE "closed", left |-> <<>>, free |-> FALSE, good |-> 0]
\* A broker that sends Start and Tune in one go may get only the second answer
Attack(st, s) == IF st = "header" THEN Header(s)
                 ELSE LET w == Walk(Side(st), At(st), s, FALSE) IN
                      IF st = "bstart" /\ w.st \in {"bopenok", "relay"} THEN [w EXCEPT !.free = TRUE] ELSE w

InitAt(p) == /\ pre = p /\ linger = 0 /\ ev = [op |-> "Init"]
             /\ out = [res |-> "", free |-> FALSE, good |-> 0, answer |-> FALSE]
Init == \E p \in Variants : InitAt(p)
\* res: where the connection went; "waiting" when it has bytes of an unfinished frame and nothing follows
Result(w) == IF w.left # <<>> THEN "waiting" ELSE w.st
Go(e) ==
  LET w == Attack(e.st, e.bytes) IN
  /\ IF e.end = "linger" THEN linger < Most ELSE TRUE
  /\ linger' = (IF e.end = "linger" /\ Result(w) = "waiting" THEN linger + 1 ELSE linger)
  /\ out' = [res |-> Result(w), free |-> w.free, good |-> w.good, answer |-> w.st = "closed" /\ e.st = "header" /\ Len(e.bytes) <= 8]

Bytes(e) ==
  LET b == Change(Change(Book(e.st, e.is), e.m, e.i, e.b), e.m2, e.i2, e.b2) IN
  CASE e.first = 0 -> b [] e.first > 0 -> Odd(e.first) \o b [] OTHER -> b \o Odd(0 - e.first)
\* Headers of eight bytes, or nothing like one
Fine(st, s) == IF st = "header" /\ Len(s) > 8 THEN SubSeq(s, 1, 4) # SubSeq(Hdr, 1, 4) ELSE TRUE
None == [m |-> "none", i |-> 0, b |-> 0, m2 |-> "none", i2 |-> 0, b2 |-> 0]
E0(st, is, m, i, b, first, split, end) == [op |-> "Go", st |-> st, is |-> is, m |-> m, i |-> i, b |-> b, m2 |-> "none", i2 |-> 0, b2 |-> 0, first |-> first, split |-> split, end |-> end]
Somes == {<<>>, <<17, 22>>, <<24, 25, 9>>}
Verbs == {"AUTH", "BACKEND", "CONN", "DATACENTER", "FARM", "LIMIT", "LISTEN", "LOG", "MAP", "MAPHOSTNAME", "SESSION", "STAT", "TLS", "VHOST", "",
          "BACKEND ADD", "FARM ADD", "LIMIT CONN_RATE", "LISTEN START", "STAT LISTEN", "TLS INGRESS", "SESSION 1"}
Nonsense == (0..255) \ ((65..90) \cup (97..122) \cup {10, 13} \cup (48..57))
Vals == {0, 1, 4, 10, 11, 50, 65, 70, 83, 127, 128, 206, 255}
Inputs(op) ==
  CASE op = "Odd" -> {E0(st, <<>>, "none", 0, 0, k, sp, "fin") : st \in Stages, k \in (1..22) \cup {-k : k \in 1..22}, sp \in {"one", "bytes"}}
    [] op = "Cut" -> UNION {{E0(st, is, "cut", i, 0, 0, "one", en) : i \in 1..(Len(Book(st, is)) - 1), en \in {"fin", "rst", "linger"}} : st \in Stages, is \in {<<>>, <<22>>}}
    [] op = "Bump" -> UNION {{E0(st, is, "bump", i, b, 0, "one", "fin") : i \in 0..(Len(Book(st, is)) - 1), b \in {1, 255}} : st \in Stages, is \in {<<>>, <<22>>}}
    [] op = "Rnd" -> {[op |-> "Go", st |-> RandomElement(Stages), is |-> RandomElement(Somes),
                       m |-> RandomElement({"none", "cut", "set", "add", "del", "bump"}), i |-> RandomElement(0..90), b |-> RandomElement(Vals \cup {RandomElement(0..255)}),
                       m2 |-> RandomElement({"none", "nothing", "set", "add", "del", "bump"}), i2 |-> RandomElement(0..90), b2 |-> RandomElement(Vals),
                       first |-> RandomElement({0, 0 - RandomElement(0..22), RandomElement(0..22)}), split |-> RandomElement({"one", "bytes"}), end |-> RandomElement({"fin", "rst", "linger"})]}
    \* the control socket: a command with nonsense (no letters) for arguments, whole or cut short
    [] op = "Ctl" -> {[op |-> "Ctl", verb |-> RandomElement(Verbs), bytes |-> [k \in 1..RandomElement(0..12) |-> RandomElement(Nonsense)],
                       times |-> RandomElement({1, 2, 7000}), nl |-> RandomElement({0, 1, 1, 3}), end |-> RandomElement({"answer", "fin"})]}
    \* a port that expects TLS: a record header, then anything
    [] op = "Tls" -> {[op |-> "Tls", bytes |-> RandomElement({<<22, 3, 1, 0, RandomElement(0..255), 1, 0, 0>>, <<22, 3, 3>>, Hdr, <<21, 3, 3, 0, 2, 2, 40>>, <<128, 46, 1>>})
                                                  \o [k \in 1..RandomElement(0..40) |-> RandomElement(0..255)],
                       end |-> RandomElement({"fin", "rst"})]}
    [] OTHER -> {}
Other(e) == /\ ev' = e /\ UNCHANGED linger /\ out' = [res |-> "", free |-> FALSE, good |-> 0, answer |-> FALSE]
Do(e) ==
  /\ IF e.op \in {"Ctl", "Tls"} THEN Other(e) ELSE
     LET f == IF "bytes" \in DOMAIN e THEN e ELSE [op |-> e.op, st |-> e.st, split |-> e.split, end |-> e.end, bytes |-> Bytes(e)] IN
     Fine(f.st, f.bytes) /\ ev' = f /\ Go(f)
  /\ UNCHANGED pre
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
Class == IF ev'.op = "Go" THEN <<ev'.st, ev'.bytes, ev'.end, ev'.split>> ELSE <<ev'>>

\* On the specification: nothing but complete well-formed frames moves a connection on, and whatever follows a violation is not used
C13 == [][ev'.op = "Go" => LET w == Attack(ev'.st, ev'.bytes) IN
          /\ Len(w.left) <= Len(ev'.bytes) /\ w.good <= Len(ev'.bytes)
          /\ (\A n \in 1..Len(ev'.bytes) : LET v == Attack(ev'.st, SubSeq(ev'.bytes, 1, n)) IN
                ev'.st # "header" => (v.st \in {"closed", "refused"} => w.st = v.st) /\ v.good <= w.good)
          /\ (linger' > linger => out'.res = "waiting")]_vars

\* others, fresh: the bystander and a newcomer are served; same: what was relayed is exactly the sent bytes' beginning
Matches(o) ==
  /\ "died" \notin DOMAIN o /\ o.others /\ o.fresh /\ o.same
  /\ IF ev'.op # "Go" THEN o.control ELSE
     /\ \/ o.res = out'.res /\ (At(ev'.st) = "relay" /\ o.res # "closed" => o.good = out'.good)
        \/ out'.free /\ o.res \in {"closed", "stuck"}
     /\ o.good <= out'.good
     /\ (out'.answer => o.answer)
=============================================================================
