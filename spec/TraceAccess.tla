---------------------------- MODULE TraceAccess ----------------------------
(***************************************************************************)
(* Judges recorded connections from all kinds of addresses by Access.      *)
(***************************************************************************)
EXTENDS Access, Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, allow, sess, loop

vars == <<l, allow, sess, loop>>

e0 == Trace[l]
Report(s, at) == \A c \in s : PrintT("VIOL " \o ToString(at) \o " " \o c)

Init == l = 1 /\ allow = FALSE /\ sess = "none" /\ loop = FALSE

Step ==
    \/ e0.ev = "run" /\ allow' = e0.allow /\ UNCHANGED <<sess, loop>>
    \* Connections are used one after the other.
    \/ e0.ev = "open" /\ sess' = "none" /\ loop' = e0.loop /\ UNCHANGED allow
    \/ /\ e0.ev = "bind"
       /\ Report(BindWrong(e0.kind, allow, loop, e0.res = 0) \cup (IF e0.res < 0 THEN {"answer"} ELSE {}), l)
       /\ sess' = AfterBind(e0.kind, e0.res = 0)
       /\ UNCHANGED <<allow, loop>>
    \/ /\ e0.ev = "search"
       /\ Report(SearchWrong(e0.kind, sess, allow, loop, e0.n) \cup (IF e0.res < 0 THEN {"answer"} ELSE {}), l)
       /\ UNCHANGED <<allow, sess, loop>>
    \/ e0.ev = "dead" /\ Report({"alive"}, l) /\ UNCHANGED <<allow, sess, loop>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step

Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
