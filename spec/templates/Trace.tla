------------------------------- MODULE Trace -------------------------------
(* Is every recorded execution a behaviour of @X@?                            *)
EXTENDS @X@, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
TraceInit == \E i \in DOMAIN Traces : t = i /\ l = 1 /\ InitAt(Traces[i].pre)
TraceNext ==
  /\ l <= Len(Traces[t].steps)
  /\ Do(Traces[t].steps[l].ev)
  /\ Matches(Traces[t].steps[l].out)
  /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, t, l>>
Track == IF l > TLCGet(t) THEN TLCSet(t, l) ELSE TRUE
ASSUME \A i \in DOMAIN Traces : TLCSet(i, 0)
Post == PrintT("MATCHED " \o ToJson([i \in DOMAIN Traces |-> TLCGet(i) - 1]))
=============================================================================
