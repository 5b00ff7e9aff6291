------------------------------ MODULE Counters ------------------------------
(***************************************************************************)
(* What the published usage counters may say.  The monitor follows what    *)
(* the clients do:                                                         *)
(*   sent    requests sent, by kind                                        *)
(*   dialed  connections opened                                            *)
(*   sure    connections that are open for certain: answered something and *)
(*           not being closed                                              *)
(*   maybe   connections that may be open                                  *)
(*   lo, hi  bounds of the largest number of simultaneous connections      *)
(*   last    the counters when they were last looked at                    *)
(* Counters seen at any time are bounded by what was sent and never go     *)
(* back; once everything has settled they are exact.                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANT Kinds

Max(a, b) == IF a >= b THEN a ELSE b

Nothing == [k \in Kinds |-> 0]
Start == [sent |-> Nothing, dialed |-> 0, sure |-> {}, maybe |-> {}, lo |-> 0, hi |-> 0,
          last |-> [n |-> Nothing, conns |-> 0, max |-> 0]]

Dialed(m, c) == [m EXCEPT !.dialed = @ + 1, !.maybe = @ \cup {c}, !.hi = Max(@, Cardinality(m.maybe \cup {c}))]
SentMany(m, k, n) == [m EXCEPT !.sent[k] = @ + n]
Sent(m, k) == SentMany(m, k, 1)
Answered(m, c) == [m EXCEPT !.sure = @ \cup {c}, !.lo = Max(@, Cardinality(m.sure \cup {c}))]
Closing(m, c) == [m EXCEPT !.sure = @ \ {c}]

\* v: [n |-> [kind |-> count], conns, cur, max]
Wrong(m, v) ==
    (IF \E k \in DOMAIN v.n : v.n[k] > m.sent[k] THEN {"count"} ELSE {})
    \cup (IF v.conns > m.dialed THEN {"conns"} ELSE {})
    \cup (IF v.cur > Cardinality(m.maybe) THEN {"current"} ELSE {})
    \cup (IF v.max > m.hi THEN {"max"} ELSE {})
    \cup (IF (\E k \in DOMAIN v.n : v.n[k] < m.last.n[k]) \/ v.conns < m.last.conns \/ v.max < m.last.max THEN {"back"} ELSE {})

Seen(m, v) == [m EXCEPT !.last = [n |-> [k \in Kinds |-> IF k \in DOMAIN v.n THEN v.n[k] ELSE 0], conns |-> v.conns, max |-> v.max]]

\* Nothing is under way any more.
WrongSettled(m, v) ==
    Wrong(m, v)
    \cup (IF \E k \in DOMAIN v.n : v.n[k] # m.sent[k] THEN {"count"} ELSE {})
    \cup (IF v.conns # m.dialed THEN {"conns"} ELSE {})
    \cup (IF v.cur # Cardinality(m.sure) THEN {"current"} ELSE {})
    \cup (IF v.max < m.lo THEN {"max"} ELSE {})

Settled(m, v) == [Seen(m, v) EXCEPT !.maybe = m.sure]
=============================================================================
