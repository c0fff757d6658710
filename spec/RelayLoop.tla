----------------------------- MODULE RelayLoop -----------------------------
(* The mechanism behind one direction of Relay: ask how much there is, read   *)
(* into a buffer of that size (or into the rest of the buffer that holds an   *)
(* unfinished frame), split off complete frames, keep the remainder at the    *)
(* front of a buffer that can hold a frame of maximal size, write, repeat.    *)
(* Checked: it implements the stream of Relay for every segmentation, every   *)
(* short read and write, and never stops with a complete frame in hand.       *)
EXTENDS Naturals, Sequences
CONSTANTS MaxFrame,   \* longest frame
          Total       \* bytes of the stream
VARIABLES bounds,     \* the ends of the frames of the stream (ascending)
          wire,       \* bytes that have arrived at the proxy's socket, cumulative
          cons,       \* bytes read from the socket, cumulative
          asked,      \* size of the read buffer chosen by the last look at the socket; 0: waiting
          mark, cap,  \* unprocessed bytes at the front of the buffer, its size
          pend,       \* bytes being written (they precede the unprocessed ones)
          dlv         \* bytes delivered
vars == <<bounds, wire, cons, asked, mark, cap, pend, dlv>>

RECURSIVE Ends(_, _)
Ends(n, acc) == IF acc = Total THEN {<<>>}
                ELSE UNION {{<<acc + k>> \o q : q \in Ends(n, acc + k)} : k \in {k \in 1..n : acc + k <= Total}}
Init == /\ bounds \in Ends(MaxFrame, 0)
        /\ wire = 0 /\ cons = 0 /\ asked = 0 /\ mark = 0 /\ cap = 0 /\ pend = 0 /\ dlv = 0

Arrive == /\ wire < Total /\ \E n \in 1..(Total - wire) : wire' = wire + n
          /\ UNCHANGED <<bounds, cons, asked, mark, cap, pend, dlv>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* woken up: look how much there is and choose the buffer
Look == /\ pend = 0 /\ asked = 0 /\ wire > cons
        /\ asked' = Max(wire - cons, 1)
        /\ cap' = IF mark = 0 THEN asked' ELSE cap
        /\ UNCHANGED <<bounds, wire, cons, mark, pend, dlv>>
LastEnd(x) == IF \E i \in DOMAIN bounds : bounds[i] <= x
              THEN bounds[CHOOSE i \in DOMAIN bounds : bounds[i] <= x /\ (i = Len(bounds) \/ bounds[i + 1] > x)] ELSE 0
\* read (at least one byte, at most what fits), process, keep the remainder
Read == /\ asked > 0 /\ wire > cons /\ cap > mark
        /\ \E n \in 1..Min(cap - mark, wire - cons) :
             LET base == cons - mark
                 e == Max(LastEnd(cons + n), base)
                 rem == cons + n - e IN
             /\ cons' = cons + n
             /\ pend' = e - base
             /\ mark' = rem
             /\ cap' = IF rem > 0 THEN Max(rem, MaxFrame) ELSE 0
             /\ asked' = 0
        /\ UNCHANGED <<bounds, wire, dlv>>
WriteOut == /\ pend > 0 /\ \E n \in 1..pend : pend' = pend - n /\ dlv' = dlv + n
            /\ UNCHANGED <<bounds, wire, cons, asked, mark, cap>>
Next == Arrive \/ Look \/ Read \/ WriteOut
Spec == Init /\ [][Next]_vars /\ WF_vars(Look) /\ WF_vars(Read) /\ WF_vars(WriteOut) /\ WF_vars(Arrive)

\* nothing lost, invented or reordered; nothing complete is held back while waiting
Account == dlv + pend + mark = cons /\ cons <= wire
Prompt == (pend = 0 /\ asked = 0) => dlv = LastEnd(cons)
Room == asked > 0 => cap > mark
Delivered == <>(dlv = Total)
=============================================================================
