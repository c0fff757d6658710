-------------------------------- MODULE Amqp --------------------------------
(* AMQP 0-9-1 values, methods and frames as bytes: which byte strings mean    *)
(* something, what they mean, and how it is written back.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Sub(s, i, n) == SubSeq(s, i, i + n - 1)
Rest(s, n) == SubSeq(s, n + 1, Len(s))
\* Lengths beyond any container are all alike
Big == 16777216
U32(s) == IF s[1] > 0 THEN Big ELSE s[2] * 65536 + s[3] * 256 + s[4]
B4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
B2(n) == <<n \div 256, n % 256>>
Z(n) == [i \in 1..n |-> 0]
Fail == [ok |-> FALSE, v |-> <<>>, n |-> 0]
Got(v, n) == [ok |-> TRUE, v |-> v, n |-> n]      \* n bytes were used

---- (* decoding: the value of a prefix of s *)
Raw(s, n) == IF Len(s) < n THEN Fail ELSE Got(SubSeq(s, 1, n), n)
LongStr(s) == IF Len(s) < 4 THEN Fail ELSE IF U32(s) > Len(s) - 4 THEN Fail ELSE Got(Sub(s, 5, U32(s)), 4 + U32(s))
ShortStr(s) == IF Len(s) < 1 THEN Fail ELSE IF s[1] > Len(s) - 1 THEN Fail ELSE Got(Sub(s, 2, s[1]), 1 + s[1])

\* the character codes of the types, and the sizes of those of one size
Fixed == (116 :> 1 @@ 98 :> 1 @@ 66 :> 1 @@ 85 :> 2 @@ 115 :> 2 @@ 117 :> 2 @@ 73 :> 4 @@ 105 :> 4 @@ 108 :> 8 @@ 76 :> 8 @@ 84 :> 8
          @@ 102 :> 4 @@ 100 :> 8 @@ 68 :> 5 @@ 86 :> 0)
Types == DOMAIN Fixed \cup {83, 120, 65, 70}
RECURSIVE Val(_), Items(_), Fields(_)
Val(s) ==
  IF s = <<>> THEN Fail ELSE
  LET ty == s[1]   r == Tail(s) IN
  CASE ty \in DOMAIN Fixed ->
         LET x == Raw(r, Fixed[ty]) IN
         IF ~x.ok THEN Fail
         ELSE CASE ty = 116 -> Got([t |-> ty, b |-> <<IF x.v[1] = 0 THEN 0 ELSE 1>>], 2)    \* any non-zero is true
                [] ty = 85 -> Got([t |-> 115, b |-> x.v], 3)                               \* U is s
                [] OTHER -> Got([t |-> ty, b |-> x.v], 1 + x.n)
    [] ty \in {83, 120} -> LET x == LongStr(r) IN IF x.ok THEN Got([t |-> ty, b |-> x.v], 1 + x.n) ELSE Fail
    [] ty = 65 -> LET x == LongStr(r) IN IF ~x.ok THEN Fail ELSE LET y == Items(x.v) IN IF y.ok THEN Got([t |-> ty, b |-> y.v], 1 + x.n) ELSE Fail
    [] ty = 70 -> LET x == LongStr(r) IN IF ~x.ok THEN Fail ELSE LET y == Fields(x.v) IN IF y.ok THEN Got([t |-> ty, b |-> y.v], 1 + x.n) ELSE Fail
    [] OTHER -> Fail
Items(s) ==
  IF s = <<>> THEN Got(<<>>, 0)
  ELSE LET x == Val(s) IN IF ~x.ok THEN Fail
       ELSE LET y == Items(Rest(s, x.n)) IN IF y.ok THEN Got(<<x.v>> \o y.v, Len(s)) ELSE Fail
Fields(s) ==
  IF s = <<>> THEN Got(<<>>, 0)
  ELSE LET k == ShortStr(s) IN IF ~k.ok THEN Fail
       ELSE LET x == Val(Rest(s, k.n)) IN IF ~x.ok THEN Fail
       ELSE LET y == Fields(Rest(s, k.n + x.n)) IN IF y.ok THEN Got(<<[k |-> k.v, x |-> x.v]>> \o y.v, Len(s)) ELSE Fail
Table(s) == LET x == LongStr(s) IN IF ~x.ok THEN Fail ELSE LET y == Fields(x.v) IN IF y.ok THEN Got(y.v, x.n) ELSE Fail

---- (* encoding *)
Short(b) == <<Len(b)>> \o b
Long(b) == B4(Len(b)) \o b
RECURSIVE EVal(_), EItems(_), EFields(_)
EVal(v) == <<v.t>> \o (CASE v.t \in {83, 120} -> Long(v.b) [] v.t = 65 -> Long(EItems(v.b)) [] v.t = 70 -> Long(EFields(v.b)) [] OTHER -> v.b)
EItems(a) == IF a = <<>> THEN <<>> ELSE EVal(Head(a)) \o EItems(Tail(a))
EFields(f) == IF f = <<>> THEN <<>> ELSE Short(Head(f).k) \o EVal(Head(f).x) \o EFields(Tail(f))
ETable(f) == Long(EFields(f))

---- (* methods: sequences of parts *)
Parts == [table |-> <<"table">>, start |-> <<"b", "b", "table", "long", "long">>, startok |-> <<"table", "short", "long", "short">>,
          tune |-> <<"w", "d", "w">>, tuneok |-> <<"w", "d", "w">>, open |-> <<"short">>, openok |-> <<"short">>,
          close |-> <<"w", "short", "w", "w">>]
Part(p, s) == CASE p = "table" -> Table(s) [] p = "long" -> LongStr(s) [] p = "short" -> ShortStr(s) [] p = "b" -> Raw(s, 1) [] p = "w" -> Raw(s, 2) [] OTHER -> Raw(s, 4)
EPart(p, v) == CASE p = "table" -> ETable(v) [] p = "long" -> Long(v) [] p = "short" -> Short(v) [] OTHER -> v
RECURSIVE Decode(_, _), Encode(_, _)
Decode(ps, s) ==
  IF ps = <<>> THEN Got(<<>>, 0)
  ELSE LET x == Part(Head(ps), s) IN IF ~x.ok THEN Fail
       ELSE LET y == Decode(Tail(ps), Rest(s, x.n)) IN IF y.ok THEN Got(<<x.v>> \o y.v, x.n + y.n) ELSE Fail
Encode(ps, v) == IF ps = <<>> THEN <<>> ELSE EPart(Head(ps), Head(v)) \o Encode(Tail(ps), Tail(v))
\* Open's reserved fields are not kept, OpenOk's only field neither
Written(kind, v) == CASE kind = "open" -> Encode(Parts.open, v) \o <<0, 0>> [] kind = "openok" -> <<0>> [] OTHER -> Encode(Parts[kind], v)

---- (* frames *)
Frames(s) ==
  IF Len(s) < 8 THEN [is |-> "more", n |-> 0]
  ELSE LET l == U32(Sub(s, 4, 4)) IN
       IF l + 8 > Len(s) THEN (IF l + 8 > 150000 THEN [is |-> "bad", n |-> 0] ELSE [is |-> "more", n |-> 0])
       ELSE IF s[8 + l] # 206 THEN [is |-> "bad", n |-> 0] ELSE [is |-> "frame", n |-> 8 + l]

---- (* the inputs: well-formed bytes, changed in some places *)
T(t, b) == [t |-> t, b |-> b]
F(k, x) == [k |-> k, x |-> x]
Abc(n) == [i \in 1..n |-> 96 + (i % 26)]
Num(n) == [i \in 1..n |-> (i * 77 + n * 13) % 256]
Values == <<T(116, <<1>>), T(116, <<0>>), T(98, <<255>>), T(66, <<200>>), T(115, <<128, 1>>), T(117, <<255, 254>>), T(73, Num(4)), T(105, <<255, 255, 255, 255>>),
            T(108, Num(8)), T(76, <<128, 0, 0, 0, 0, 0, 0, 1>>), T(84, Num(8)), T(102, Num(4)), T(100, Num(8)), T(68, Num(5)), T(86, <<>>),
            T(83, <<>>), T(83, Abc(3)), T(83, <<0, 255, 10>>), T(120, <<>>), T(120, Num(6)),
            T(65, <<>>), T(65, <<T(86, <<>>), T(73, Num(4)), T(83, Abc(2))>>), T(70, <<>>), T(70, <<F(Abc(2), T(116, <<1>>)), F(<<>>, T(83, Abc(1)))>>),
            T(65, <<T(65, <<T(70, <<F(Abc(1), T(108, Num(8)))>>)>>), T(98, <<1>>)>>), T(70, <<F(Abc(1), T(70, <<F(Abc(1), T(65, <<>>))>>)), F(Abc(1), T(85 + 30, Num(2)))>>)>>
V(i) == Values[i]
N == Len(Values)
TableOf(is) == [j \in DOMAIN is |-> F(Abc(1 + (is[j] % 4)), V(is[j]))]
\* a message of this kind about these values
Message(kind, is) ==
  LET tb == TableOf(is)   n == Len(is) IN
  CASE kind = "table" -> ETable(tb)
    [] kind = "start" -> <<0, 9>> \o ETable(tb) \o Long(Abc(3 * n)) \o Long(Abc(5))
    [] kind = "startok" -> ETable(tb) \o Short(Abc(5)) \o Long(Num(4 * n)) \o Short(Abc(n))
    [] kind \in {"tune", "tuneok"} -> Num(8)
    [] kind = "open" -> Short(Abc(n * 3)) \o <<0, 0>>
    [] kind = "openok" -> <<0>>
    [] kind = "close" -> B2(320) \o Short(Abc(n * 4)) \o B2(10) \o B2(40)
    [] OTHER -> <<1 + (n % 3), n, 7>> \o Long(ETable(tb)) \o <<206>> \o Num(n)
Change(s, m, i, b) ==
  LET k == 1 + (i % (Len(s) + 1)) IN
  CASE m = "none" -> s
    [] m = "cut" -> SubSeq(s, 1, k - 1)
    [] m = "set" -> IF k > Len(s) THEN s ELSE [s EXCEPT ![k] = b]
    [] m = "add" -> SubSeq(s, 1, k - 1) \o <<b>> \o SubSeq(s, k, Len(s))
    [] m = "del" -> SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
    [] m = "bump" -> IF k > Len(s) THEN s ELSE [s EXCEPT ![k] = (s[k] + b) % 256]
    [] OTHER -> s
=============================================================================
