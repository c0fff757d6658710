------------------------------- MODULE Proxy -------------------------------
(***************************************************************************)
(* The proxy as its peers see it.                                          *)
(*                                                                         *)
(* A behaviour is a sequence of environment inputs (control commands,      *)
(* client, broker and auth-service actions).  Each step is one input       *)
(* followed by everything the proxy does until it is quiet again; `out`    *)
(* is what the peers observe in that step.  `Do(e)` is the transition for  *)
(* the input `e`; `Next` lets any enabled input happen.  The conformance   *)
(* checker replays recorded executions of the real binary through `Do`.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Clients, Vhosts, Backends, Farms, DCs,
          Ops,       \* the kinds of input of this configuration
          CStops,    \* where clients may pause in their handshake
          BStops,    \* where brokers may pause in their handshake
          Caps,      \* subset of BOOLEAN: clients with authentication_failure_close
          Presets,   \* initial configurations, a function from names
          MaxMsg     \* messages per direction and connection

VARIABLES cfg,   \* the proxy's configuration
          up,    \* addresses at which a broker listens
          ses,   \* one session per client
          rec,   \* per farm: addresses attempted since it was (re)partitioned, oldest first
          ev,    \* the last input
          out,   \* what was observed after it
          pre    \* name of the initial configuration

core == <<cfg, up, ses, rec>>
vars == <<cfg, up, ses, rec, ev, out, pre>>

Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq2(S \ {x})
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

---------------------------------------------------------------------------
(* Configuration *)

NoBackend == [ex |-> FALSE, dc |-> "-", px |-> FALSE, ad |-> 0]
NoFarm == [ex |-> FALSE, mem |-> {}, aff |-> FALSE]

Addr(b) == IF cfg.bk[b].ad = 0 THEN b ELSE b \o "x"
NoOne == [a |-> "none", px |-> FALSE]
BRec(b) == [a |-> Addr(b), px |-> cfg.bk[b].px]

Members(f) == {b \in cfg.fm[f].mem : cfg.bk[b].ex}
Near(f) == {b \in Members(f) : cfg.bk[b].dc = cfg.dc}

\* The candidates for a farm, in order of preference
Parts(f) ==
  LET m == Members(f) IN
  IF ~cfg.fm[f].aff THEN << {BRec(b) : b \in m} >>
  ELSE << {BRec(b) : b \in Near(f)}, {BRec(b) : b \in m \ Near(f)} >>

Target(v) == IF cfg.map[v] # "none" THEN cfg.map[v] ELSE cfg.dflt
Routable(v) == \/ Target(v) \in Farms /\ cfg.fm[Target(v)].ex
               \/ Target(v) \in Backends /\ cfg.bk[Target(v)].ex
\* The backends the configuration assigns to a virtual host (C03)
Assigned(v) == IF ~Routable(v) THEN {}
               ELSE IF Target(v) \in Farms THEN {Addr(b) : b \in Members(Target(v))}
               ELSE {Addr(Target(v))}
RouteParts(v) == IF Target(v) \in Farms THEN Parts(Target(v)) ELSE << {BRec(Target(v))} >>
RouteFarm(v) == IF Target(v) \in Farms THEN Target(v) ELSE "none"
Limited(v) == IF cfg.lim[v] # "none" THEN cfg.lim[v] = "zero" ELSE cfg.dlim = "zero"

---------------------------------------------------------------------------
(* Choosing a broker *)

\* Of the candidates S: one never attempted, otherwise the least recently attempted
Cand(S, r) ==
  LET fresh == {x \in S : x.a \notin Range(r)} IN
  IF fresh # {} THEN fresh
  ELSE {CHOOSE x \in S : \A y \in S :
           LET pos(z) == CHOOSE i \in DOMAIN r : r[i] = z.a IN pos(x) <= pos(y)}

\* All ways of trying candidates until one accepts
RECURSIVE Walk(_, _, _, _)
Walk(ps, tried, r, strict) ==
  IF ps = <<>> THEN {[att |-> <<>>, x |-> NoOne, r |-> r]}
  ELSE LET left == ps[1] \ tried IN
    IF left = {} THEN Walk(Tail(ps), tried, r, strict)
    ELSE UNION { LET r2 == Append(Without(r, x.a), x.a) IN
                 IF x.a \in up THEN {[att |-> <<x.a>>, x |-> x, r |-> r2]}
                 ELSE {[w EXCEPT !.att = <<x.a>> \o @] :
                         w \in Walk(ps, tried \cup {x}, r2, strict)}
               : x \in (IF strict THEN Cand(left, r) ELSE left) }

---------------------------------------------------------------------------
(* Sessions *)

Idle == [st |-> "idle", v |-> "none", bs |-> 4, b |-> "none", psd |-> FALSE, hd |-> FALSE,
         n |-> 0, m |-> 0, auth |-> "off", cap |-> FALSE, cred |-> "own",
         parts |-> <<>>, f |-> "none", r0 |-> <<>>, asg |-> {}]

Pre   == {"dial", "hdr", "sok", "tok"}                  \* before Open
Legs  == {"conn", "bst", "btn", "open", "ccs", "scs"}   \* with a broker connection
Live  == Pre \cup Legs \cup {"held", "auth", "ccs0", "stall"}  \* listed sessions
Past  == Legs \cup {"held", "auth", "stall"}            \* the vhost is known

NoOut == [cl |-> [c \in Clients |-> <<>>], br |-> [c \in Clients |-> <<>>],
          att |-> <<>>, au |-> {}, q |-> {}, x |-> <<>>, ctl |-> ""]

\* An effect on one session: its new state and what is observed
Eff(s, cl, br) == [s |-> s, cl |-> cl, br |-> br, att |-> <<>>, au |-> {}, f |-> "none", r |-> <<>>]

\* Broker side tokens of a handshake that goes from stage i to stage j
BSteps(c, s, i, j) ==
     (IF i < 2 /\ j >= 2 THEN <<"startok:" \o c \o ":" \o s.cred>> ELSE <<>>)
  \o (IF i < 3 /\ j >= 3 THEN <<"tuneok", "open:" \o s.v>> ELSE <<>>)
BState(j) == <<"conn", "bst", "btn", "open">>[j]
BStage(st) == CASE st = "conn" -> 1 [] st = "bst" -> 2 [] st = "btn" -> 3 [] OTHER -> 4

\* Connect session s of client c to one of its candidates
Connecting(c, s) ==
  LET strict == s.f # "none" /\ s.r0 = rec[s.f]
      W == IF s.f = "none" THEN Walk(s.parts, {}, <<>>, FALSE)
           ELSE Walk(s.parts, {}, IF strict THEN rec[s.f] ELSE <<>>, strict)
      newr(w) == IF strict THEN w.r ELSE <<>>
  IN { IF w.x = NoOne
       THEN [Eff(Idle, <<"eof">>, <<>>) EXCEPT !.att = w.att, !.f = s.f, !.r = newr(w)]
       ELSE [Eff([s EXCEPT !.st = BState(s.bs), !.b = w.x.a],
                 IF s.bs = 4 THEN <<"openok">> ELSE <<>>,
                 <<"conn:" \o w.x.a>> \o (IF w.x.px THEN <<"proxy">> ELSE <<>>) \o <<"hdr">>
                    \o BSteps(c, s, 1, s.bs))
             EXCEPT !.att = w.att, !.f = s.f, !.r = newr(w)]
     : w \in W }

Refuse(s) == Eff(Idle, (IF s.cap THEN <<"close:403">> ELSE <<>>) \o <<"eof">>, <<>>)

\* The client's Open is honoured (or, for a held session, resumed)
Proceed(c, s, loose) ==
  IF Limited(s.v) THEN { Eff(Idle, <<"close:506:" \o s.v, "eof">>, <<>>) }
  ELSE IF ~Routable(s.v) THEN { Eff(Idle, <<"close:506:" \o s.v, "eof">>, <<>>) }
  ELSE LET s1 == [s EXCEPT !.parts = RouteParts(s.v), !.f = RouteFarm(s.v), !.asg = Assigned(s.v),
                           !.r0 = IF loose THEN <<"?">>
                                    ELSE IF RouteFarm(s.v) = "none" THEN <<>> ELSE rec[RouteFarm(s.v)]] IN
    IF s.auth = "on"
    THEN { [Eff([s1 EXCEPT !.st = "auth"], <<>>, <<>>)
              EXCEPT !.au = {"req:" \o c \o ":" \o s.v}] }
    ELSE IF s.auth = "down" THEN { Refuse(s) }
    ELSE Connecting(c, s1)

AtOpen(c, s) ==
  IF s.v \in cfg.paused THEN { Eff([s EXCEPT !.st = "held", !.psd = TRUE], <<>>, <<>>) }
  ELSE Proceed(c, s, FALSE)

\* Client handshake from stage i (0: nothing, 1: connected, 2: header, 3: Start-Ok, 4: Tune-Ok)
\* to stage k (5: Open)
CToks(i, k) == (IF i < 2 /\ k >= 2 THEN <<"start">> ELSE <<>>)
            \o (IF i < 3 /\ k >= 3 THEN <<"tune">> ELSE <<>>)
CState(k) == <<"dial", "hdr", "sok", "tok">>[k]
CStage(st) == CASE st = "dial" -> 1 [] st = "hdr" -> 2 [] st = "sok" -> 3 [] OTHER -> 4

Shake(c, s, i, k) ==
  IF k < 5 THEN { Eff([s EXCEPT !.st = CState(k)], CToks(i, k), <<>>) }
  ELSE { [e EXCEPT !.cl = CToks(i, 4) \o @] : e \in AtOpen(c, s) }

---------------------------------------------------------------------------
(* Applying effects *)

Keep == UNCHANGED pre

\* One client is affected
One(c, e) ==
  /\ ses' = [ses EXCEPT ![c] = e.s]
  /\ out' = [NoOut EXCEPT !.cl[c] = e.cl, !.br[c] = e.br, !.att = e.att, !.au = e.au]
  /\ rec' = IF e.f = "none" THEN rec ELSE [rec EXCEPT ![e.f] = e.r]
  /\ UNCHANGED <<cfg, up>> /\ Keep

Cfg(new, ctl) ==
  /\ cfg' = new
  /\ out' = [NoOut EXCEPT !.ctl = ctl]
  /\ UNCHANGED <<ses, up>> /\ Keep

FreshFarms == [f \in Farms |-> <<>>]

\* Both legs of a session end
Ends(s) == Eff(IF s.st = "auth" THEN [s EXCEPT !.st = "zauth"] ELSE Idle,
               <<"eof">>, IF s.st \in Legs THEN <<"eof">> ELSE <<>>)

---------------------------------------------------------------------------
(* Control commands *)

BAdd(e) == LET b == e.b IN
  IF cfg.bk[b].ex THEN Cfg(cfg, "err") /\ UNCHANGED rec
  ELSE /\ Cfg([cfg EXCEPT !.bk[b] = [ex |-> TRUE, dc |-> e.d, px |-> e.px, ad |-> e.ad]], "ok")
       /\ rec' = FreshFarms
BDel(e) == IF ~cfg.bk[e.b].ex THEN Cfg(cfg, "err") /\ UNCHANGED rec
           ELSE Cfg([cfg EXCEPT !.bk[e.b] = NoBackend], "ok") /\ rec' = FreshFarms
FAdd(e) == LET mem == Range(e.mem) IN
  IF \E b \in mem : ~cfg.bk[b].ex THEN Cfg(cfg, "err") /\ UNCHANGED rec
  ELSE /\ Cfg([cfg EXCEPT !.fm[e.f] = [ex |-> TRUE, mem |-> mem, aff |-> FALSE]], "ok")
       /\ rec' = [rec EXCEPT ![e.f] = <<>>]
FPart(e) == IF ~cfg.fm[e.f].ex THEN Cfg(cfg, "err") /\ UNCHANGED rec
            ELSE Cfg([cfg EXCEPT !.fm[e.f].aff = TRUE], "ok") /\ rec' = [rec EXCEPT ![e.f] = <<>>]
FDel(e) == Cfg([cfg EXCEPT !.fm[e.f] = NoFarm], "ok") /\ rec' = [rec EXCEPT ![e.f] = <<>>]
Map(e)   == Cfg([cfg EXCEPT !.map[e.v] = e.t], "ok") /\ UNCHANGED rec     \* t: farm or backend
Unmap(e) == Cfg([cfg EXCEPT !.map[e.v] = "none"], "ok") /\ UNCHANGED rec
Dflt(e)  == Cfg([cfg EXCEPT !.dflt = e.f], "ok") /\ UNCHANGED rec
NoDflt(e) == Cfg([cfg EXCEPT !.dflt = "none"], "ok") /\ UNCHANGED rec
DcSet(e) == Cfg([cfg EXCEPT !.dc = e.d], "ok") /\ rec' = FreshFarms
Lim(e)   == Cfg([cfg EXCEPT !.lim[e.v] = e.x], "") /\ UNCHANGED rec
DLim(e)  == Cfg([cfg EXCEPT !.dlim = e.x], "") /\ UNCHANGED rec
Auth(e)  == Cfg([cfg EXCEPT !.auth = e.x], "") /\ UNCHANGED rec

\* What the PRINT commands say
PrintQ ==
        {"B|" \o b \o "|" \o cfg.bk[b].dc \o "|" \o Addr(b) \o (IF cfg.bk[b].px THEN "|P" ELSE "")
           : b \in {b \in Backends : cfg.bk[b].ex}}
        \cup UNION {{"F|" \o f} \cup {"F|" \o f \o "|" \o b : b \in cfg.fm[f].mem}
                     : f \in {f \in Farms : cfg.fm[f].ex}}
        \cup {"M|" \o v \o "|" \o cfg.map[v] : v \in {v \in Vhosts : cfg.map[v] # "none"}}
        \cup {"D|" \o cfg.dc}
        \cup {"P|" \o v : v \in cfg.paused}
        \cup {"L|" \o v \o "|0" : v \in {v \in Vhosts : Limited(v)}}

\* Malformed commands: each is answered and changes nothing (names are those of the configuration)
BadCmds == {
  <<"BACKEND">>, <<"BACKEND", "ADD">>, <<"BACKEND", "ADD", "b1">>, <<"BACKEND", "ADD", "b1", "d1">>, <<"BACKEND", "ADD", "b1", "d1", "127.9.9.9">>,
  <<"BACKEND", "ADD", "b1", "d1", "127.9.9.9", "0">>, <<"BACKEND", "ADD", "b1", "d1", "127.9.9.9", "65536">>,
  <<"BACKEND", "ADD", "b1", "d1", "127.9.9.9", "-1">>, <<"BACKEND", "ADD", "b1", "d1", "127.9.9.9", "x">>, <<"BACKEND", "ADD_DNS", "b1">>,
  <<"BACKEND", "ADD_DNS", "b1", "d1">>, <<"BACKEND", "ADD_DNS", "b1", "d1", "h">>, <<"BACKEND", "ADD_DNS", "b1", "d1", "h", "99999">>,
  <<"BACKEND", "ADD_DNS", "b1", "d1", "h", "0">>, <<"BACKEND", "DELETE">>, <<"BACKEND", "NOPE", "b1">>, <<"FARM">>, <<"FARM", "ADD">>,
  <<"FARM", "ADD", "f1">>, <<"FARM", "ADD", "f1", "round-robin">>, <<"FARM", "ADD", "f1", "nosuch", "b1">>,
  <<"FARM", "ADD", "f1", "round-robin", "nosuch">>, <<"FARM", "ADD", "f1", "round-robin", "b1", "nosuch">>, <<"FARM", "PARTITION">>,
  <<"FARM", "PARTITION", "f1">>, <<"FARM", "PARTITION", "f1", "nosuch">>, <<"FARM", "PARTITION", "nosuch", "datacenter-affinity">>,
  <<"FARM", "DELETE">>, <<"FARM", "NOPE", "f1">>, <<"MAP">>, <<"MAP", "BACKEND">>, <<"MAP", "BACKEND", "v1">>, <<"MAP", "FARM">>,
  <<"MAP", "FARM", "v1">>, <<"MAP", "DEFAULT">>, <<"MAP", "UNMAP">>, <<"MAP", "NOPE", "v1">>, <<"DATACENTER">>, <<"DATACENTER", "NOPE">>,
  <<"VHOST">>, <<"VHOST", "PAUSE">>, <<"VHOST", "UNPAUSE">>, <<"VHOST", "FORCE_DISCONNECT">>, <<"VHOST", "BACKEND_DISCONNECT">>,
  <<"VHOST", "NOPE", "v1">>, <<"LIMIT">>, <<"LIMIT", "CONN_RATE">>, <<"LIMIT", "CONN_RATE", "VHOST">>, <<"LIMIT", "CONN_RATE", "VHOST", "v1">>,
  <<"LIMIT", "CONN_RATE", "VHOST", "v1", "x">>, <<"LIMIT", "CONN_RATE", "VHOST", "v1", "-1">>,
  <<"LIMIT", "CONN_RATE", "VHOST", "v1", "99999999999999999999">>, <<"LIMIT", "CONN_RATE", "DEFAULT">>, <<"LIMIT", "CONN_RATE", "DEFAULT", "x">>,
  <<"LIMIT", "CONN_RATE", "DEFAULT", "-3">>, <<"LIMIT", "CONN_RATE", "NOPE", "v1", "0">>, <<"LIMIT", "CONN_RATE_ALARM", "VHOST", "v1">>,
  <<"LIMIT", "CONN_RATE_ALARM", "VHOST", "v1", "x">>, <<"LIMIT", "DATA_RATE", "VHOST", "v1">>, <<"LIMIT", "DATA_RATE", "VHOST", "v1", "x">>,
  <<"LIMIT", "DATA_RATE", "VHOST", "v1", "-1">>, <<"LIMIT", "DATA_RATE", "DEFAULT", "-1">>, <<"LIMIT", "DISABLE">>,
  <<"LIMIT", "DISABLE", "CONN_RATE">>, <<"LIMIT", "DISABLE", "CONN_RATE", "VHOST">>, <<"LIMIT", "DISABLE", "NOPE", "VHOST", "v1">>,
  <<"LIMIT", "DISABLE", "CONN_RATE", "NOPE", "v1">>, <<"LIMIT", "NOPE">>, <<"SESSION">>, <<"SESSION", "x", "FORCE_DISCONNECT">>,
  <<"SESSION", "-1", "FORCE_DISCONNECT">>, <<"SESSION", "99999", "FORCE_DISCONNECT">>, <<"SESSION", "99999", "DISCONNECT_GRACEFUL">>,
  <<"SESSION", "99999", "PAUSE">>, <<"SESSION", "1">>, <<"SESSION", "1", "NOPE">>, <<"SESSION", "99999999999999999999", "PAUSE">>, <<"AUTH">>,
  <<"AUTH", "NOPE">>, <<"AUTH", "SERVICE">>, <<"AUTH", "SERVICE", "127.9.9.9">>, <<"AUTH", "SERVICE", "127.9.9.9", "5000">>, <<"LISTEN">>,
  <<"LISTEN", "NOPE">>, <<"LISTEN", "START">>, <<"LISTEN", "START", "x">>, <<"LISTEN", "START", "0">>, <<"LISTEN", "START", "65536">>,
  <<"LISTEN", "START", "-1">>, <<"LISTEN", "START_SECURE">>, <<"LISTEN", "START_SECURE", "70000">>, <<"LISTEN", "STOP", "x">>,
  <<"LISTEN", "STOP", "0">>, <<"LISTEN", "STOP", "65536">>, <<"LISTEN", "STOP", "-1">>, <<"LOG">>, <<"LOG", "NOPE">>, <<"LOG", "CONSOLE">>,
  <<"LOG", "CONSOLE", "x">>, <<"LOG", "FILE", "x">>, <<"STAT">>, <<"STAT", "NOPE">>, <<"STAT", "SEND">>, <<"STAT", "SEND", "127.0.0.1">>,
  <<"STAT", "SEND", "127.0.0.1", "x">>, <<"STAT", "LISTEN">>, <<"STAT", "LISTEN", "nope">>, <<"STAT", "ENABLE">>, <<"STAT", "ENABLE", "nope">>,
  <<"STAT", "DISABLE", "nope">>, <<"TLS">>, <<"TLS", "NOPE">>, <<"TLS", "INGRESS">>, <<"TLS", "INGRESS", "NOPE">>, <<"TLS", "INGRESS", "CIPHERS">>,
  <<"TLS", "INGRESS", "CIPHERS", "NOPE">>, <<"TLS", "INGRESS", "VERIFY_MODE", "NOPE">>, <<"TLS", "SIDEWAYS", "CIPHERS", "SET", "ALL">>,
  <<"MAPHOSTNAME">>, <<"MAPHOSTNAME", "NOPE">>, <<"NOPE">>, <<"AUTH", "SERVICE", "127.9.9.9", "x", "/t">>,
  <<"AUTH", "SERVICE", "127.9.9.9", "70000", "/t">>}
Bad(e) == out' = [NoOut EXCEPT !.ctl = "err", !.q = PrintQ] /\ UNCHANGED <<cfg, up, ses, rec>> /\ Keep

Of(v, S) == {c \in Clients : ses[c].v = v /\ ses[c].st \in S}

Pause(e) ==
  /\ Of(e.v, {"ccs", "scs", "ccs0", "zomb"}) = {}
  /\ cfg' = [cfg EXCEPT !.paused = @ \cup {e.v}]
  /\ ses' = [c \in Clients |-> IF c \in Of(e.v, Past) THEN [ses[c] EXCEPT !.psd = TRUE] ELSE ses[c]]
  /\ out' = [NoOut EXCEPT !.ctl = "ok"]
  /\ UNCHANGED <<up, rec>> /\ Keep

\* Sessions held at Open go on, all others of the virtual host that were paused end.  The order
\* in which several sessions go on is not determined, nor is what they leave of the farm's order.
Unpause(e) ==
  LET P == {c \in Of(e.v, Past) : ses[c].psd}
      H == {c \in P : ses[c].st = "held"}
      many == Cardinality(H) > 1
      go(c) == {IF many THEN [x EXCEPT !.att = <<>>, !.r = <<>>] ELSE x :
                  x \in Proceed(c, [ses[c] EXCEPT !.psd = FALSE, !.hd = FALSE, !.bs = IF many THEN 4 ELSE @], many)}
  IN
  /\ Of(e.v, {"ccs", "scs", "ccs0", "zomb"}) = {}
  /\ cfg' = [cfg EXCEPT !.paused = @ \ {e.v}]
  /\ UNCHANGED up /\ Keep
  /\ \E h \in [H -> UNION {go(c) : c \in H}] :
       /\ \A c \in H : h[c] \in go(c)
       /\ LET g == [c \in P |-> IF c \in H THEN h[c] ELSE Ends(ses[c])]
              farms == {h[c].f : c \in H} \ {"none"}
          IN
          /\ ses' = [c \in Clients |-> IF c \in P THEN g[c].s ELSE ses[c]]
          /\ rec' = [f \in Farms |-> IF f \in farms THEN (IF many THEN <<>> ELSE h[CHOOSE c \in H : TRUE].r)
                                     ELSE rec[f]]
          /\ out' = [NoOut EXCEPT !.cl = [c \in Clients |-> IF c \in P THEN g[c].cl ELSE <<>>],
                                  !.br = [c \in Clients |-> IF c \in P THEN g[c].br ELSE <<>>],
                                  !.au = UNION {h[c].au : c \in H},
                                  !.att = IF many THEN <<"*">>
                                          ELSE IF H = {} THEN <<>> ELSE h[CHOOSE c \in H : TRUE].att,
                                  !.ctl = "ok"]

\* SESSION id FORCE_DISCONNECT / DISCONNECT_GRACEFUL
Force(e) == LET s == ses[e.c] IN
  /\ s.st \in Live
  /\ One(e.c, Ends(s))
Graceful(e) == LET s == ses[e.c] IN
  /\ s.st \in {"hdr", "sok", "tok", "conn", "bst", "btn", "open"} /\ ~s.psd
  /\ One(e.c, Eff([s EXCEPT !.st = IF s.st \in Pre THEN "ccs0" ELSE "ccs"], <<"close:200">>, <<>>))

\* VHOST v FORCE_DISCONNECT / BACKEND_DISCONNECT
VForce(e) ==
  LET C == Of(e.v, Past) IN
  /\ Of(e.v, {"zomb"}) = {}
  /\ ses' = [c \in Clients |-> IF c \in C THEN Ends(ses[c]).s ELSE ses[c]]
  /\ out' = [NoOut EXCEPT !.cl = [c \in Clients |-> IF c \in C THEN Ends(ses[c]).cl ELSE <<>>],
                          !.br = [c \in Clients |-> IF c \in C THEN Ends(ses[c]).br ELSE <<>>],
                          !.ctl = "ok"]
  /\ UNCHANGED <<cfg, up, rec>> /\ Keep
VBack(e) ==
  LET C == Of(e.v, {"open"}) IN
  /\ Of(e.v, {"conn", "bst", "btn", "ccs", "scs", "zomb"}) = {}
  /\ \A c \in C : ~ses[c].psd
  /\ ses' = [c \in Clients |-> IF c \in C THEN [ses[c] EXCEPT !.st = "zomb", !.b = "none"] ELSE ses[c]]
  /\ out' = [NoOut EXCEPT !.br = [c \in Clients |-> IF c \in C THEN <<"eof">> ELSE <<>>], !.ctl = "ok"]
  /\ UNCHANGED <<cfg, up, rec>> /\ Keep

\* CONN: every live session exactly once
Conns(e) ==
  /\ out' = [NoOut EXCEPT !.q =
        {LET s == ses[c] IN
           c \o "|" \o (IF s.v = "none" \/ s.st \in Pre \cup {"ccs0"} THEN "" ELSE s.v) \o "|"
             \o (IF s.st \in Legs THEN s.b ELSE "-") \o (IF s.psd THEN "|P" ELSE "")
         : c \in {c \in Clients : ses[c].st \in Live}}]
  /\ UNCHANGED <<cfg, up, ses, rec>> /\ Keep

Prints(e) ==
  /\ out' = [NoOut EXCEPT !.q = PrintQ]
  /\ UNCHANGED <<cfg, up, ses, rec>> /\ Keep

---------------------------------------------------------------------------
(* Brokers coming and going *)

Quiet(e) == /\ out' = NoOut /\ UNCHANGED <<cfg, ses, rec>> /\ Keep
Up(e)   == e.a \notin up /\ up' = up \cup {e.a} /\ Quiet(e)
Down(e) == e.a \in up /\ up' = up \ {e.a} /\ Quiet(e)

---------------------------------------------------------------------------
(* Clients *)

\* Connect and go through the handshake up to stage k
Dial(e) ==
  /\ ses[e.c].st = "idle"
  /\ \E x \in Shake(e.c, [Idle EXCEPT !.v = e.v, !.bs = e.bs, !.cap = e.cap, !.auth = cfg.auth], 0, e.k) :
       One(e.c, x)
\* Go on from there
Go(e) ==
  LET s == ses[e.c] IN
  /\ s.st \in Pre
  /\ \E x \in Shake(e.c, s, CStage(s.st), 5) : One(e.c, x)

\* A message to the broker
CSend(e) ==
  LET s == ses[e.c]
      tok == "d:" \o e.c \o ":" \o ToString(s.n + 1) IN
  /\ s.st \in {"open", "ccs", "scs", "zomb"} /\ s.n < MaxMsg
  /\ IF s.st = "zomb" THEN One(e.c, Eff(Idle, <<"eof">>, <<>>))
     ELSE IF s.psd THEN One(e.c, Eff([s EXCEPT !.n = @ + 1, !.hd = TRUE], <<>>, <<>>))
     ELSE One(e.c, Eff([s EXCEPT !.n = @ + 1], <<>>, IF s.st = "open" THEN <<tok>> ELSE <<>>))
\* A heartbeat while the connection is not open yet
CBeat(e) ==
  LET s == ses[e.c] IN
  /\ s.st \in {"held", "auth", "conn", "bst", "btn"} /\ ~s.hd
  /\ One(e.c, Eff([s EXCEPT !.hd = s.psd], <<>>, <<>>))
CClose(e) ==
  LET s == ses[e.c] IN
  /\ s.st = "open" /\ ~s.psd
  /\ One(e.c, Eff(s, <<>>, <<"close:200">>))
CCloseOk(e) ==
  LET s == ses[e.c] IN
  /\ s.st \in {"ccs", "ccs0"}
  /\ IF s.st = "ccs" THEN One(e.c, Eff([s EXCEPT !.st = "scs"], <<>>, <<"close:200">>))
     ELSE One(e.c, Eff(Idle, <<"eof">>, <<>>))
\* The client goes away: k is "fin", "rst" or "half" (still reading)
CEof(e) ==
  LET s == ses[e.c] IN
  /\ s.st \in Live \cup {"zomb"} /\ ~s.hd /\ s.st # "stall"
  /\ LET x == CASE s.st = "auth" -> Eff([s EXCEPT !.st = "zauth"], <<>>, <<>>)
               [] s.st = "ccs" -> Eff(Idle, <<>>, <<"close:200", "eof">>)
               [] s.st \in Legs \ {"ccs"} -> Eff(Idle, <<>>, <<"eof">>)
               [] OTHER -> Eff(Idle, <<>>, <<>>)
     IN One(e.c, [x EXCEPT !.cl = IF e.k # "half" THEN <<>>
                                  ELSE IF s.st \in {"ccs", "ccs0"} THEN <<"close:504", "eof">>
                                  ELSE <<"eof">>])

---------------------------------------------------------------------------
(* Brokers *)

\* The broker completes its handshake
BGo(e) ==
  LET s == ses[e.c] IN
  /\ s.st \in {"conn", "bst", "btn"}
  /\ One(e.c, Eff([s EXCEPT !.st = "open"], <<"openok">>, BSteps(e.c, s, BStage(s.st), 4)))
BSend(e) ==
  LET s == ses[e.c]
      tok == "d:" \o e.c \o ":" \o ToString(s.m + 1) IN
  /\ s.st \in {"open", "ccs", "scs"} /\ s.m < MaxMsg
  /\ One(e.c, Eff([s EXCEPT !.m = @ + 1], IF s.st = "open" THEN <<tok>> ELSE <<>>, <<>>))
BClose(e) ==
  LET s == ses[e.c] IN
  CASE s.st \in {"conn", "bst", "btn"} -> One(e.c, Eff(Idle, <<"close:320:T-" \o e.c, "eof">>, <<"eof">>))
    [] s.st = "open" -> One(e.c, Eff(s, <<"close:320:T-" \o e.c>>, <<>>))
    [] s.st \in {"ccs", "scs"} -> One(e.c, Eff(Idle, <<"eof">>, <<"closeok", "eof">>))
    [] OTHER -> FALSE
BCloseOk(e) ==
  LET s == ses[e.c] IN
  CASE s.st = "open" -> One(e.c, Eff(s, <<"closeok">>, <<>>))
    [] s.st = "scs" -> One(e.c, Eff(Idle, <<"eof">>, <<"eof">>))
    [] OTHER -> FALSE
BEof(e) ==
  LET s == ses[e.c] IN
  /\ s.st \in Legs
  /\ One(e.c, Eff(Idle, <<"eof">>, IF e.k = "half" THEN <<"eof">> ELSE <<>>))

---------------------------------------------------------------------------
(* The auth service answers *)

AuthReply(e) ==
  LET s == ses[e.c] IN
  /\ s.st \in {"auth", "zauth"}
  /\ IF s.st = "zauth" THEN One(e.c, Eff(Idle, <<>>, <<>>))
     ELSE IF e.r \notin {"allow", "alt"} THEN One(e.c, Refuse(s))
     ELSE IF s.psd THEN One(e.c, Eff([s EXCEPT !.st = "stall"], <<>>, <<>>))
     ELSE \E x \in Connecting(e.c, [s EXCEPT !.cred = IF e.r = "alt" THEN "alt" ELSE "own"]) : One(e.c, x)

End(e) == out' = NoOut /\ UNCHANGED <<cfg, up, ses, rec>> /\ Keep

---------------------------------------------------------------------------

Do(e) ==
  /\ ev' = e
  /\ CASE e.op = "BAdd" -> BAdd(e)     [] e.op = "BDel" -> BDel(e)
       [] e.op = "FAdd" -> FAdd(e)     [] e.op = "FPart" -> FPart(e)
       [] e.op = "FDel" -> FDel(e)     [] e.op = "Map" -> Map(e)
       [] e.op = "Unmap" -> Unmap(e)   [] e.op = "Dflt" -> Dflt(e)
       [] e.op = "NoDflt" -> NoDflt(e) [] e.op = "DcSet" -> DcSet(e)
       [] e.op = "Lim" -> Lim(e)       [] e.op = "DLim" -> DLim(e)
       [] e.op = "Auth" -> Auth(e)     [] e.op = "Pause" -> Pause(e)
       [] e.op = "Unpause" -> Unpause(e) [] e.op = "Force" -> Force(e)
       [] e.op = "Graceful" -> Graceful(e) [] e.op = "VForce" -> VForce(e)
       [] e.op = "VBack" -> VBack(e)   [] e.op = "Conns" -> Conns(e)
       [] e.op = "Prints" -> Prints(e) [] e.op = "Up" -> Up(e)
       [] e.op = "Down" -> Down(e)     [] e.op = "Dial" -> Dial(e)
       [] e.op = "Go" -> Go(e)         [] e.op = "CSend" -> CSend(e)
       [] e.op = "CBeat" -> CBeat(e)   [] e.op = "CClose" -> CClose(e)
       [] e.op = "CCloseOk" -> CCloseOk(e) [] e.op = "CEof" -> CEof(e)
       [] e.op = "BGo" -> BGo(e)       [] e.op = "BSend" -> BSend(e)
       [] e.op = "BClose" -> BClose(e) [] e.op = "BCloseOk" -> BCloseOk(e)
       [] e.op = "BEof" -> BEof(e)     [] e.op = "AuthReply" -> AuthReply(e)
       [] e.op = "End" -> End(e)         [] e.op = "Bad" -> Bad(e)

Kinds == {"fin", "half", "rst"}
Targets == Farms \cup Backends
Addrs == Backends \cup {b \o "x" : b \in Backends}
MemSeqs == {SetToSeq2(m) : m \in (SUBSET Backends) \ {{}}}

\* The inputs of each kind (state dependent, so that each kind is one choice in simulations)
Inputs(op) ==
  CASE op = "BAdd" -> {[op |-> op, b |-> b, d |-> d, px |-> p, ad |-> a] :
                         b \in Backends, d \in DCs, p \in BOOLEAN, a \in {0, 1}}
    [] op \in {"BDel"} -> {[op |-> op, b |-> b] : b \in Backends}
    [] op = "FAdd" -> {[op |-> op, f |-> f, mem |-> m] : f \in Farms, m \in MemSeqs}
    [] op \in {"FPart", "FDel", "Dflt"} -> {[op |-> op, f |-> f] : f \in Farms}
    [] op = "Map" -> {[op |-> op, v |-> v, t |-> t] : v \in Vhosts, t \in Targets}
    [] op \in {"Unmap", "Pause", "Unpause", "VForce", "VBack"} -> {[op |-> op, v |-> v] : v \in Vhosts}
    [] op \in {"NoDflt", "Conns", "Prints", "End"} -> {[op |-> op]}
    [] op = "Bad" -> {[op |-> op, t |-> t] : t \in BadCmds}
    [] op = "DcSet" -> {[op |-> op, d |-> d] : d \in DCs}
    [] op = "Lim" -> {[op |-> op, v |-> v, x |-> x] : v \in Vhosts, x \in {"zero", "none"}}
    [] op = "DLim" -> {[op |-> op, x |-> x] : x \in {"zero", "none"}}
    [] op = "Auth" -> {[op |-> op, x |-> x] : x \in {"on", "off", "down"}}
    [] op \in {"Up", "Down"} -> {[op |-> op, a |-> a] : a \in Addrs}
    [] op = "Dial" -> {[op |-> op, c |-> c, v |-> v, k |-> k, bs |-> bs, cap |-> cap] :
                         c \in {c \in Clients : ses[c].st = "idle"}, v \in Vhosts, k \in CStops,
                         bs \in BStops, cap \in Caps}
    [] op \in {"CEof", "BEof"} -> {[op |-> op, c |-> c, k |-> k] :
                         c \in {c \in Clients : ses[c].st # "idle"}, k \in Kinds}
    [] op = "AuthReply" -> {[op |-> op, c |-> c, r |-> r] :
                         c \in {c \in Clients : ses[c].st \in {"auth", "zauth"}},
                         r \in {"allow", "alt", "deny", "long", "500", "404", "junk", "cut", "unknown"}}
    [] OTHER -> {[op |-> op, c |-> c] : c \in {c \in Clients : ses[c].st # "idle"}}

InitRest ==
  /\ ses = [c \in Clients |-> Idle]
  /\ rec = [f \in Farms |-> <<>>]
  /\ ev = [op |-> "Init"]
  /\ out = NoOut
InitAt(p) == cfg = Presets[p].cfg /\ up = Presets[p].up /\ pre = p /\ InitRest
Init == \E p \in DOMAIN Presets : InitAt(p)

Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars
=============================================================================
