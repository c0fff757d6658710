----------------------------- MODULE ProxyCover ----------------------------
(* Breadth-first exploration that prints, for every class of transitions, a   *)
(* shortest behaviour ending in a transition of that class.                   *)
EXTENDS ProxyMC, Json
CONSTANT Depth, Pairs   \* Pairs: distinguish transitions also by the input before them
VARIABLE hist
cvars == <<vars, hist>>

SesKey(c) == <<ses[c].st, ses[c].v, ses[c].psd, ses[c].hd, ses[c].cap, ses[c].auth, ses[c].cred,
               ses[c].b # "none">>
RouteKey(v) == <<IF Target(v) = "none" THEN "none" ELSE IF Target(v) \in Farms THEN "farm" ELSE "backend",
                 cfg.map[v] # "none", Routable(v), Cardinality(Assigned(v)), Cardinality(Assigned(v) \cap up),
                 Limited(v), cfg.lim[v], v \in cfg.paused, cfg.auth,
                 IF Target(v) \in Farms THEN <<cfg.fm[Target(v)].aff, Cardinality(Near(Target(v)))>> ELSE <<FALSE, 0>>>>
Busy == {c \in Clients : ses[c].st # "idle"}
Named == LET e == ev' IN
  <<IF "b" \in DOMAIN e THEN cfg.bk[e.b].ex ELSE FALSE, IF "f" \in DOMAIN e THEN cfg.fm[e.f].ex ELSE FALSE,
    IF "v" \in DOMAIN e THEN cfg.map[e.v] = "none" ELSE FALSE, Cardinality(Busy)>>
Class ==
  LET o == ev'.op IN
  IF o \in {"Dial", "Go", "AuthReply"}
  THEN LET v == IF o = "Dial" THEN ev'.v ELSE ses[ev'.c].v IN
       <<ev', SesKey(ev'.c), RouteKey(v), Len(out'.att), out'.cl[ev'.c], Cardinality(Busy)>>
  ELSE IF "c" \in DOMAIN ev' THEN <<ev', SesKey(ev'.c), out'.cl[ev'.c], out'.br[ev'.c], Cardinality(Busy)>>
  ELSE IF o \in {"Pause", "Unpause", "VForce", "VBack", "Conns"}
  THEN <<ev', [c \in Clients |-> SesKey(c)], cfg.paused>>
  ELSE IF o = "Prints" THEN <<ev', ev, Cardinality(out'.q)>>
  ELSE <<ev', out'.ctl, Named>>
Key == IF Pairs THEN <<ev.op, Class>> ELSE Class

CInit == Init /\ hist = <<>> /\ TLCSet(1, {})
Say == PrintT("BEH " \o ToJson([pre |-> pre, cfg |-> Presets[pre].cfg, up |-> Presets[pre].up, steps |-> hist']))
CNext ==
  /\ Len(hist) < Depth
  /\ Next
  /\ hist' = Append(hist, [ev |-> ev', out |-> out'])
  /\ LET k == Key IN IF k \in TLCGet(1) THEN TRUE ELSE TLCSet(1, TLCGet(1) \cup {k}) /\ Say
CSpec == CInit /\ [][CNext]_cvars
CView == core
=============================================================================
