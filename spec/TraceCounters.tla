--------------------------- MODULE TraceCounters ---------------------------
(***************************************************************************)
(* Judges recorded counters of a running server by the monitor Counters.   *)
(***************************************************************************)
EXTENDS Counters, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, m

vars == <<l, m>>

e0 == Trace[l]
Report(s, n) == \A c \in s : PrintT("VIOL " \o ToString(n) \o " " \o c)

Init == l = 1 /\ m = Start

Step ==
    \/ e0.ev = "run" /\ m' = Start
    \/ e0.ev = "dial" /\ m' = Dialed(m, e0.conn)
    \/ e0.ev = "send" /\ m' = IF e0.kind \in Kinds THEN Sent(m, e0.kind) ELSE m
    \/ e0.ev = "burst" /\ m' = SentMany(m, e0.kind, e0.count)
    \/ e0.ev = "answer" /\ m' = Answered(m, e0.conn)
    \/ e0.ev = "closing" /\ m' = Closing(m, e0.conn)
    \/ e0.ev = "look" /\ Report(Wrong(m, e0.v), l) /\ m' = Seen(m, e0.v)
    \/ e0.ev = "settled" /\ Report(WrongSettled(m, e0.v), l) /\ m' = Settled(m, e0.v)
    \* A request or the collection of the counters was not answered.
    \/ e0.ev = "blocked" /\ Report({"blocked"}, l) /\ UNCHANGED m

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step

Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
