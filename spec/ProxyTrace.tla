----------------------------- MODULE ProxyTrace ----------------------------
(* Is every recorded execution a behaviour of Proxy?  Traces is a sequence of *)
(* [pre, steps : Seq([ev, out])]; one TLC run checks all of them.             *)
EXTENDS ProxyMC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
Seen(i) == Traces[i].steps
Matches(o) ==
  /\ \A c \in Clients : out'.cl[c] = o.cl[c] /\ out'.br[c] = o.br[c]
  /\ out'.att = o.att
  /\ out'.au = Range(o.au) /\ Len(o.au) = Cardinality(out'.au)
  /\ out'.q = Range(o.q) /\ Len(o.q) = Cardinality(out'.q)
  /\ out'.x = o.x
  /\ out'.ctl = o.ctl
TraceInit == \E i \in DOMAIN Traces : t = i /\ l = 1 /\ InitAt(Traces[i].pre)
TraceNext ==
  /\ l <= Len(Seen(t))
  /\ Do(Seen(t)[l].ev)
  /\ Matches(Seen(t)[l].out)
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, t, l>>
\* The longest matched prefix of each trace, in registers
Track == IF l > TLCGet(t) THEN TLCSet(t, l) ELSE TRUE
TrackInit == \A i \in DOMAIN Traces : TLCSet(i, 0)
ASSUME TrackInit
Post == PrintT("MATCHED " \o ToJson([i \in DOMAIN Traces |-> TLCGet(i) - 1]))
=============================================================================
