------------------------------ MODULE ProxyMC ------------------------------
(* Initial configurations and the properties of Proxy, stated over its steps *)
EXTENDS Proxy

\* CONSTANT substitutions -------------------------------------------------
BkAt(dcs, px) == [b \in Backends |-> [ex |-> TRUE, dc |-> dcs[b], px |-> b \in px, ad |-> 0]]
Dcs(near) == [b \in Backends |-> IF b \in near THEN "d1" ELSE "d2"]
FmOf(g) == [f \in Farms |-> IF f \in DOMAIN g THEN [ex |-> TRUE, mem |-> g[f], aff |-> FALSE] ELSE NoFarm]
NoMap == [v \in Vhosts |-> "none"]
BaseCfg == [bk |-> BkAt(Dcs(Backends), {}), fm |-> FmOf([f1 |-> Backends, f2 |-> {"b2"}]),
            map |-> [NoMap EXCEPT !["v1"] = "f1", !["v2"] = "f2"],
            dflt |-> "none", dc |-> "d1", paused |-> {}, auth |-> "off",
            lim |-> [v \in Vhosts |-> "none"], dlim |-> "none"]
EmptyCfg == [BaseCfg EXCEPT !.bk = [b \in Backends |-> NoBackend], !.fm = FmOf([f \in {} |-> {}]),
                            !.map = NoMap, !.dc = "d0"]

P(c) == [cfg |-> c, up |-> Backends]
DirectCfg == [BaseCfg EXCEPT !.map["v1"] = "b1", !.map["v2"] = "b2"]
AffCfg(near) == [BaseCfg EXCEPT !.bk = BkAt(Dcs(near), {}), !.fm["f1"].aff = TRUE]

PresetsAll ==
  [ farm   |-> P(BaseCfg),
    direct |-> P(DirectCfg),
    dflt   |-> P([BaseCfg EXCEPT !.map["v1"] = "none", !.dflt = "f1"]),
    empty  |-> P(EmptyCfg),
    none   |-> P([BaseCfg EXCEPT !.map = NoMap]),
    aff1   |-> P(AffCfg({"b1"})),
    aff2   |-> P(AffCfg({"b1", "b2"})),
    aff0   |-> P(AffCfg({})),
    auth   |-> P([BaseCfg EXCEPT !.auth = "on"]),
    authd  |-> P([DirectCfg EXCEPT !.auth = "on"]),
    proxy  |-> P([BaseCfg EXCEPT !.bk = BkAt(Dcs(Backends), {"b1", "b3"})]),
    paused |-> P([DirectCfg EXCEPT !.paused = {"v1"}]) ]
Pick(S) == [p \in S |-> PresetsAll[p]]
PresetsRoute == Pick({"farm", "direct", "dflt", "empty", "none"})
PresetsFail  == Pick({"farm", "aff1", "aff2", "aff0", "direct"})
PresetsRobin == Pick({"farm", "aff2"})
PresetsAuth  == Pick({"auth", "authd", "farm"})
PresetsPause == Pick({"direct", "paused", "farm"})
PresetsPlain == Pick({"direct", "farm"})
PresetsCtl   == Pick({"empty", "farm", "aff2"})
PresetsProxy == Pick({"proxy", "farm", "direct"})

---------------------------------------------------------------------------
(* The properties, as conditions on every step *)

Vof(c) == IF ev'.op = "Dial" /\ ev'.c = c THEN ev'.v ELSE ses[c].v
ConnTo(c) == {a \in Addrs : out'.br[c] # <<>> /\ out'.br[c][1] = "conn:" \o a}
Reaches(c) == ConnTo(c) # {}
HasTok(s, t) == \E i \in DOMAIN s : s[i] = t
Data(c) == {"d:" \o d \o ":" \o ToString(n) : d \in Clients, n \in 1..(MaxMsg + 1)}
Opening(c) == ev'.op \in {"Dial", "Go", "AuthReply"} /\ ev'.c = c

\* What the configuration in force when the Open is handled assigns to c's virtual host
AsgOf(c) == IF ses[c].st = "auth" THEN ses[c].asg ELSE IF Vof(c) = "none" THEN {} ELSE Assigned(Vof(c))

C03Step ==
  /\ \A c \in Clients : ConnTo(c) \subseteq AsgOf(c)
  /\ \A c \in Clients : (Opening(c) /\ out'.att # <<"*">>) => Range(out'.att) \subseteq AsgOf(c)
  /\ \A c \in Clients :
       (ev'.op = "Dial" /\ ev'.c = c /\ ev'.k = 5 /\ Assigned(ev'.v) = {} /\ ev'.v \notin cfg.paused
          /\ cfg.auth = "off")
       => ~Reaches(c) /\ ses'[c].st = "idle" /\ HasTok(out'.cl[c], "eof")

C04Step ==
  \A c \in Clients : (Opening(c) /\ out'.att # <<>>) =>
    LET att == out'.att
        asg == AsgOf(c)
        near == IF RouteFarm(Vof(c)) # "none" /\ cfg.fm[RouteFarm(Vof(c))].aff
                THEN {Addr(b) : b \in Near(RouteFarm(Vof(c)))} ELSE {}
    IN /\ \A i, j \in DOMAIN att : i # j => att[i] # att[j]
       /\ \A i \in 1..(Len(att) - 1) : att[i] \notin up
       /\ Reaches(c) <=> asg \cap up # {}
       /\ ~Reaches(c) => Range(att) = asg
       /\ (ses[c].st # "auth") => \A i, j \in DOMAIN att : att[i] \notin near /\ att[j] \in near => j < i

C05Step ==
  \A c \in Clients : (ev'.op \in {"Dial", "Go"} /\ ev'.c = c /\ out'.att # <<>> /\ RouteFarm(Vof(c)) # "none") =>
    LET f == RouteFarm(Vof(c))
        ps == Parts(f)
        top == {x.a : x \in (IF ps[1] # {} THEN ps[1] ELSE ps[2])}
        a == out'.att[1]
        pos(z) == IF z \in Range(rec[f]) THEN CHOOSE i \in DOMAIN rec[f] : rec[f][i] = z ELSE 0
    IN a \in top /\ \A z \in top : pos(a) <= pos(z)

C06Step ==
  \A c \in Clients :
    LET svc == IF ev'.op = "Dial" /\ ev'.c = c THEN cfg.auth ELSE ses[c].auth IN
    /\ (Reaches(c) /\ svc # "off") =>
          /\ ev'.op = "AuthReply" /\ ev'.c = c /\ ev'.r \in {"allow", "alt"} /\ ses[c].st = "auth"
    /\ (ev'.op = "AuthReply" /\ ev'.c = c /\ ses[c].st = "auth" /\ ev'.r \notin {"allow", "alt"}) =>
          /\ ses'[c].st = "idle" /\ HasTok(out'.cl[c], "eof")
          /\ HasTok(out'.cl[c], "close:403") <=> ses[c].cap
    /\ \A s \in {"own", "alt"} : HasTok(out'.br[c], "startok:" \o c \o ":" \o s) => s = ses'[c].cred

C07Step ==
  \A c \in Clients :
    /\ (Vof(c) \in cfg.paused /\ Vof(c) \in cfg'.paused) => ~Reaches(c)
    /\ ses[c].psd => \A t \in Data(c) : ~HasTok(out'.br[c], t)
    /\ (ev'.op = "Unpause" /\ ses[c].psd /\ ses[c].v = ev'.v /\ ses[c].st = "held"
          /\ ses[c].auth = "off" /\ Assigned(ses[c].v) \cap up # {} /\ ~Limited(ses[c].v))
         => ses'[c].st \in {"conn", "bst", "btn", "open"}
    /\ (ev'.op = "Unpause" /\ ses[c].psd /\ ses[c].v = ev'.v /\ ses[c].st \in Legs)
         => ses'[c].st = "idle" /\ HasTok(out'.cl[c], "eof") /\ HasTok(out'.br[c], "eof")
    /\ (ev'.op \in {"Pause", "Unpause"} /\ ses[c].v # ev'.v)
         => ses'[c] = ses[c] /\ out'.cl[c] = <<>> /\ out'.br[c] = <<>>

\* Legs end together and other sessions are not affected
C10Step ==
  \A c \in Clients :
    /\ (ses[c].st \in Legs /\ ses'[c].st \notin Legs /\ ses'[c].st # "zomb") =>
         /\ HasTok(out'.cl[c], "eof") \/ (ev'.op = "CEof" /\ ev'.c = c)
         /\ HasTok(out'.br[c], "eof") \/ (ev'.op = "BEof" /\ ev'.c = c)
    /\ ("c" \in DOMAIN ev' /\ ev'.c # c) =>
         ses'[c] = ses[c] /\ out'.cl[c] = <<>> /\ out'.br[c] = <<>>
    /\ ev'.op = "Conns" =>
         Cardinality({q \in out'.q : TRUE}) = Cardinality({d \in Clients : ses[d].st \in Live})

C11Step ==
  \A c \in Clients :
    /\ (ev'.op = "VForce" /\ ses[c].v = ev'.v /\ ses[c].st \in Past) =>
         HasTok(out'.cl[c], "eof") /\ (ses[c].st \in Legs => HasTok(out'.br[c], "eof"))
    /\ (ev'.op \in {"VForce", "VBack"} /\ (ses[c].v # ev'.v \/ ses[c].st \in Pre)) =>
         ses'[c] = ses[c] /\ out'.cl[c] = <<>> /\ out'.br[c] = <<>>
    /\ (ev'.op = "VBack" /\ ses[c].v = ev'.v /\ ses[c].st = "open") => out'.br[c] = <<"eof">>
    /\ (ev'.op = "Graceful" /\ ev'.c = c) => out'.cl[c] = <<"close:200">> /\ out'.br[c] = <<>>
    /\ (HasTok(out'.br[c], "close:200") /\ ses[c].st = "ccs") => ev'.op \in {"CCloseOk", "CEof"}
    /\ (ses[c].st \in {"ccs", "scs"}) => \A t \in Data(c) : ~HasTok(out'.br[c], t) /\ ~HasTok(out'.cl[c], t)

C12Step ==
  \A c \in Clients :
    /\ (ev'.op = "Dial" /\ ev'.c = c /\ ev'.k = 5 /\ ev'.v \notin cfg.paused
          /\ (Limited(ev'.v) \/ ~Routable(ev'.v)))
         => out'.cl[c] = <<"start", "tune", "close:506:" \o ev'.v, "eof">>
    /\ (ev'.op = "BClose" /\ ev'.c = c /\ ses[c].st \in {"conn", "bst", "btn"})
         => out'.cl[c] = <<"close:320:T-" \o c, "eof">>

\* Configuration commands change what they name and nothing else (and nothing when refused)
C15Step ==
  LET e == ev' IN
  /\ out'.ctl = "err" => cfg' = cfg /\ rec' = rec
  /\ e.op \in {"BAdd", "BDel", "FAdd", "FPart", "FDel", "Map", "Unmap", "Dflt", "NoDflt", "DcSet", "Lim", "DLim", "Auth"} =>
       ses' = ses /\ out'.cl = NoOut.cl /\ out'.br = NoOut.br /\ out'.att = <<>>
  /\ \A b \in Backends : cfg'.bk[b] # cfg.bk[b] => e.op \in {"BAdd", "BDel"} /\ e.b = b
  /\ \A f \in Farms : cfg'.fm[f] # cfg.fm[f] => e.op \in {"FAdd", "FPart", "FDel"} /\ e.f = f
  /\ \A v \in Vhosts : cfg'.map[v] # cfg.map[v] => e.op \in {"Map", "Unmap"} /\ e.v = v
  /\ \A v \in Vhosts : cfg'.lim[v] # cfg.lim[v] => e.op = "Lim" /\ e.v = v
  /\ \A v \in Vhosts : (v \in cfg'.paused) # (v \in cfg.paused) => e.op \in {"Pause", "Unpause"} /\ e.v = v
  /\ cfg'.dflt # cfg.dflt => e.op \in {"Dflt", "NoDflt"}
  /\ cfg'.dlim # cfg.dlim => e.op = "DLim"
  /\ cfg'.dc # cfg.dc => e.op = "DcSet"
  /\ cfg'.auth # cfg.auth => e.op = "Auth"

C15 == [][C15Step]_vars
C03 == [][C03Step]_vars
C04 == [][C04Step]_vars
C05 == [][C05Step]_vars
C06 == [][C06Step]_vars
C07 == [][C07Step]_vars
C10 == [][C10Step]_vars
C11 == [][C11Step]_vars
C12 == [][C12Step]_vars

TypeOK ==
  /\ \A c \in Clients : ses[c].st \in Live \cup {"idle", "zauth", "zomb"}
  /\ \A c \in Clients : ses[c].st \in Legs => ses[c].b \in ses[c].asg
  /\ \A c \in Clients : ses[c].st = "held" => ses[c].psd
  /\ \A f \in Farms : \A i, j \in DOMAIN rec[f] : i # j => rec[f][i] # rec[f][j]

\* Restrict exhaustive exploration to short configurations
View == core
=============================================================================
