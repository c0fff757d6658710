----------------------------- MODULE DnsCache -----------------------------
(* The name resolver and its cache.  Requests that need a lookup wait in      *)
(* order until the environment answers the lookup; a request may, when it is  *)
(* answered, make another one (as failover does).  Observed: the answers      *)
(* given in each step, and for which name and port the lookup answered was.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Hosts, Ports, Results, Steps, Ops, Pres, MaxQ
VARIABLES cache,             \* <<host, port>> -> list of addresses, or "none"
          q,                 \* lookups not answered yet
          n,                 \* requests made
          on, age, cur, tmo, \* the expiry timer: running, time since it was set, its length, the length configured
          ev, out, pre
core == <<cache, q, on, age, cur, tmo, pre>>
vars == <<cache, q, n, on, age, cur, tmo, ev, out, pre>>
Keys == Hosts \X Ports
NoKey == <<"-", "-">>
None == "none"
\* What the environment may answer: lists of address names, or failures
Good == [a |-> <<"1">>, b |-> <<"2">>, ab |-> <<"1", "2">>, ba |-> <<"2", "1">>, six |-> <<"6", "1">>]
IsGood(r) == r \in DOMAIN Good
Nothing == [cb |-> <<>>, asked |-> NoKey]

InitAt(p) == /\ pre = p /\ cache = [k \in Keys |-> None] /\ q = <<>> /\ n = 0
             /\ on = FALSE /\ age = 0 /\ cur = 0 /\ tmo = 1000
             /\ ev = [op |-> "Init"] /\ out = Nothing
Init == \E p \in Pres : InitAt(p)

Ans(id, k, res) == [id |-> id, ok |-> TRUE, to |-> [i \in DOMAIN Good[res] |-> <<Good[res][i], k[2]>>]]
Err(id) == [id |-> id, ok |-> FALSE, to |-> <<>>]
\* A request for k, followed by one for ch (unless NoKey) as soon as it is answered
Ask(id, k, ch, c0, q0) ==
  IF c0[k] = None THEN [q |-> Append(q0, [id |-> id, k |-> k, ch |-> ch]), cb |-> <<>>]
  ELSE IF ch = NoKey THEN [q |-> q0, cb |-> <<Ans(id, k, c0[k])>>]
  ELSE IF c0[ch] = None THEN [q |-> Append(q0, [id |-> id + 1, k |-> ch, ch |-> NoKey]), cb |-> <<Ans(id, k, c0[k])>>]
  ELSE [q |-> q0, cb |-> <<Ans(id, k, c0[k]), Ans(id + 1, ch, c0[ch])>>]

Resolve(e) == /\ Len(q) < MaxQ /\ e.k # e.ch
              /\ LET r == Ask(n, e.k, e.ch, cache, q) IN q' = r.q /\ out' = [cb |-> r.cb, asked |-> NoKey]
              /\ n' = n + 2 /\ UNCHANGED <<cache, on, age, cur, tmo>>
Answer(e) ==
  /\ q # <<>>
  /\ LET h == Head(q)
         c1 == IF IsGood(e.r) THEN [cache EXCEPT ![h.k] = e.r] ELSE cache
         rest == IF h.ch = NoKey THEN [q |-> Tail(q), cb |-> <<>>] ELSE Ask(h.id + 1, h.ch, NoKey, cache, Tail(q))
     IN /\ q' = rest.q /\ cache' = c1
        /\ out' = [cb |-> <<IF IsGood(e.r) THEN Ans(h.id, h.k, e.r) ELSE Err(h.id)>> \o rest.cb, asked |-> h.k]
  /\ UNCHANGED <<n, on, age, cur, tmo>>
Put(e) == cache' = [cache EXCEPT ![e.k] = e.r] /\ out' = Nothing /\ UNCHANGED <<q, n, on, age, cur, tmo>>
Clear(e) == cache' = [cache EXCEPT ![e.k] = None] /\ out' = Nothing /\ UNCHANGED <<q, n, on, age, cur, tmo>>
Timeout(e) == tmo' = e.d /\ out' = Nothing /\ UNCHANGED <<cache, q, n, on, age, cur>>
Start == /\ on' = TRUE /\ IF on THEN UNCHANGED <<age, cur>> ELSE age' = 0 /\ cur' = tmo
         /\ out' = Nothing /\ UNCHANGED <<cache, q, n, tmo>>
Stop == on' = FALSE /\ age' = 0 /\ cur' = 0 /\ out' = Nothing /\ UNCHANGED <<cache, q, n, tmo>>
Pass(e) == /\ out' = Nothing /\ UNCHANGED <<q, n, on, tmo>>
           /\ IF ~on THEN UNCHANGED <<cache, age, cur>>
              ELSE IF age + e.d < cur THEN age' = age + e.d /\ UNCHANGED <<cache, cur>>
              ELSE cache' = [k \in Keys |-> None] /\ age' = 0 /\ cur' = tmo

Do(e) == /\ ev' = e /\ pre' = pre
         /\ CASE e.op = "Resolve" -> Resolve(e) [] e.op = "Answer" -> Answer(e) [] e.op = "Put" -> Put(e) [] e.op = "Clear" -> Clear(e)
              [] e.op = "Timeout" -> Timeout(e) [] e.op = "Start" -> Start [] e.op = "Stop" -> Stop [] e.op = "Pass" -> Pass(e)
RECURSIVE Inputs(_)
Inputs(op) ==
  CASE op = "Resolve" -> {[op |-> op, k |-> k, ch |-> NoKey] : k \in Keys}
    [] op = "Chain" -> {[op |-> "Resolve", k |-> k, ch |-> ch] : k \in Keys, ch \in Keys}
    [] op = "Answer" -> {[op |-> op, r |-> r] : r \in Results}
    [] op = "Again" -> Inputs("Answer")
    [] op = "Put" -> {[op |-> op, k |-> k, r |-> r] : k \in Keys, r \in Results \cap DOMAIN Good}
    [] op = "Clear" -> {[op |-> op, k |-> k] : k \in Keys}
    [] op \in {"Pass", "Timeout"} -> {[op |-> op, d |-> d] : d \in Steps}
    [] OTHER -> {[op |-> op]}
Next == \E op \in Ops : \E e \in Inputs(op) : Do(e)
Spec == Init /\ [][Next]_vars

Matches(o) == o = out'
\* requests are named in order: only their order matters
View == <<cache, [i \in DOMAIN q |-> [q[i] EXCEPT !.id = 0]], on, age, cur, tmo, pre>>
Class == CASE ev'.op = "Resolve" -> <<ev', cache[ev'.k], IF ev'.ch = NoKey THEN "-" ELSE cache[ev'.ch], Len(q), on, pre>>
           [] ev'.op = "Answer" -> <<ev', Head(q).k, cache[Head(q).k], Head(q).ch, IF Head(q).ch = NoKey THEN "-" ELSE cache[Head(q).ch], Len(q), pre>>
           [] ev'.op \in {"Put", "Clear"} -> <<ev', cache[ev'.k], pre>>
           [] OTHER -> <<ev', on, age, cur, tmo, Cardinality({k \in Keys : cache[k] # None}), pre>>

\* C17 on the specification
C17 == /\ on => age < cur
       /\ \A i \in DOMAIN out.cb : ~out.cb[i].ok => out.cb[i].to = <<>>
Served == [][/\ (ev'.op = "Pass" /\ on /\ age + ev'.d >= cur => \A k \in Keys : cache'[k] = None)
             /\ (ev'.op = "Answer" /\ ~IsGood(ev'.r) => cache' = cache)
             /\ (ev'.op = "Resolve" => /\ Len(q') + Len(out'.cb) = Len(q) + (IF ev'.ch = NoKey \/ cache[ev'.k] = None THEN 1 ELSE 2)
                                       /\ (cache[ev'.k] # None => out'.cb[1] = Ans(n, ev'.k, cache[ev'.k])))]_vars
=============================================================================
