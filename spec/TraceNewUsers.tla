--------------------------- MODULE TraceNewUsers ---------------------------
(***************************************************************************)
(* Judges recorded runs of the tool by NewUsers.                           *)
(* An event: the lines, the exit code, whether an error was reported, the  *)
(* records found in the output.                                            *)
(***************************************************************************)
EXTENDS NewUsers, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

e0 == Trace[l]
Report(s) == \A c \in s : PrintT("VIOL " \o ToString(l) \o " " \o c)

Judge ==
    (IF e0.code \notin 0..125 \ {2} \/ (e0.code # 0 /\ ~e0.said) THEN {"crash"} ELSE {})
    \cup (IF e0.code = 0 /\ Bad(e0.lines) THEN {"unsaid"} ELSE {})
    \cup (IF e0.code # 0 /\ ~MayRefuse(e0.lines) THEN {"refused"} ELSE {})
    \cup (IF e0.code = 0 /\ ~Bad(e0.lines) THEN (IF e0.loads THEN WrongRecs(e0.lines, e0.recs) ELSE {"loads"}) ELSE {})

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Judge)
Spec == Init /\ [][Next]_l

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
