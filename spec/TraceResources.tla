--------------------------- MODULE TraceResources ---------------------------
(***************************************************************************)
(* Judges recorded measurements of a running server by Resources.          *)
(***************************************************************************)
EXTENDS Resources, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, base, few

vars == <<l, base, few>>

e0 == Trace[l]
Report(s, n) == \A c \in s : PrintT("VIOL " \o ToString(n) \o " " \o c)
Nothing == [files |-> 0, tasks |-> 0, memory |-> 0]

Init == l = 1 /\ base = Nothing /\ few = 0

Step ==
    \/ e0.ev = "run" /\ base' = e0.v /\ UNCHANGED few
    \/ e0.ev = "used" /\ Report(WrongNow(base, e0.open, e0.v), l) /\ UNCHANGED <<base, few>>
    \/ e0.ev = "end" /\ Report(WrongEnd(base, e0.open, e0.v), l) /\ UNCHANGED <<base, few>>
    \/ e0.ev = "few" /\ few' = e0.size /\ UNCHANGED base
    \/ e0.ev = "many" /\ Report(WrongSize(few, e0.size), l) /\ UNCHANGED <<base, few>>
    \* The server died or stopped answering.
    \/ e0.ev = "dead" /\ Report({"dead"}, l) /\ UNCHANGED <<base, few>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step

Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
