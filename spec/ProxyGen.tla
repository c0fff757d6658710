------------------------------ MODULE ProxyGen -----------------------------
(* Prints random behaviours of Proxy as JSON, one per line.  Every (op, w)    *)
(* pair is a separate action for TLC's simulator, which picks among actions.  *)
EXTENDS ProxyMC, Json
CONSTANT Depth
VARIABLE hist
Weight(op) == CASE op = "Dial" -> 4
                [] op \in {"AuthReply", "Unpause"} -> 3
                [] op \in {"Go", "BGo", "CCloseOk", "BCloseOk", "Conns", "CEof", "BAdd"} -> 2
                [] OTHER -> 1
GenInit == Init /\ hist = <<>>
GenNext ==
  \E op \in Ops : \E w \in 1..Weight(op) :
    /\ Len(hist) < Depth
    /\ \E e \in Inputs(op) : Do(e)
    /\ hist' = Append(hist, [ev |-> ev', out |-> out'])
GenEnd ==
  /\ Len(hist) = Depth
  /\ PrintT("BEH " \o ToJson([pre |-> pre, cfg |-> Presets[pre].cfg, up |-> Presets[pre].up, steps |-> hist]))
  /\ hist' = Append(hist, [ev |-> [op |-> "End"], out |-> NoOut])
  /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext \/ GenEnd]_<<vars, hist>>
=============================================================================
