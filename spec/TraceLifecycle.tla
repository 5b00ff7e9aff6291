--------------------------- MODULE TraceLifecycle ---------------------------
(***************************************************************************)
(* Judges recorded lives of the server program by Lifecycle.               *)
(***************************************************************************)
EXTENDS Lifecycle, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, s

vars == <<l, s>>

e0 == Trace[l]
Set(q) == { q[i] : i \in DOMAIN q }
Report(w) == \A c \in w : PrintT("VIOL " \o ToString(l) \o " " \o c)

Init == l = 1 /\ s = Fresh

Step ==
    \/ e0.ev = "run" /\ s' = Fresh
    \/ e0.ev = "start" /\ Report(StartWrong(e0.valid, Set(e0.wanted), Set(e0.accepts), e0.ended, e0.code)) /\ s' = AfterStart(s, e0.ended)
    \* seen to accept for the first time: signals may follow before all listeners are there
    \/ e0.ev = "notice" /\ s' = AfterStart(s, FALSE)
    \/ e0.ev = "open" /\ Report(OpenWrong(s, e0.ok)) /\ UNCHANGED s
    \/ e0.ev = "use" /\ Report(UseWrong(s, e0.res)) /\ UNCHANGED s
    \/ e0.ev = "write" /\ Report(UseWrong(s, e0.res)) /\ s' = AfterWrite(s, e0.name, e0.res)
    \* written by clients that went on while the server was told to stop
    \/ e0.ev = "load" /\ s' = [s EXCEPT !.sure = @ \cup Set(e0.sure), !.may = @ \cup Set(e0.may)]
    \/ e0.ev = "signal" /\ s' = AfterSignal(s, e0.sig \in {"TERM", "INT"})
    \/ e0.ev = "end" /\ Report(EndWrong(s, e0.ended, e0.code, Set(e0.held))) /\ s' = AfterEnd(s, e0.ended)
    \/ e0.ev = "left" /\ Report(LeftWrong(s, Set(e0.names))) /\ s' = AfterLeft(s, Set(e0.names))

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step

Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
