-------------------------------- MODULE Gen --------------------------------
(* Behaviours of @X@, printed as JSON: random ones (GenSpec, simulated) or a  *)
(* shortest one per class of transitions (CovSpec, breadth first).            *)
EXTENDS @X@, Json
CONSTANT Depth
VARIABLE hist
Say(steps_) == PrintT("BEH " \o ToJson([pre |-> pre, steps |-> steps_]))
GenInit == Init /\ hist = <<>>
GenNext ==
  \E op \in Ops :
    /\ Len(hist) < Depth
    /\ \E e \in Inputs(op) : Do(e)
    /\ hist' = Append(hist, [ev |-> ev', out |-> out'])
GenEnd ==
  /\ Len(hist) = Depth
  /\ Say(hist)
  /\ hist' = Append(hist, [ev |-> ev, out |-> out])
  /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext \/ GenEnd]_<<vars, hist>>

CovInit == GenInit /\ TLCSet(1, {})
CovNext == GenNext /\ LET k == Class IN IF k \in TLCGet(1) THEN TRUE ELSE TLCSet(1, TLCGet(1) \cup {k}) /\ Say(hist')
CovSpec == CovInit /\ [][CovNext]_<<vars, hist>>
CovView == core
=============================================================================
