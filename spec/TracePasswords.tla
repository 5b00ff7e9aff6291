-------------------------- MODULE TracePasswords --------------------------
(***************************************************************************)
(* Judges recorded verifications and runs of the password tool.            *)
(*   try   a bind with a password against a stored value                   *)
(*   make  the tool asked twice for a hash of one password                 *)
(***************************************************************************)
EXTENDS Passwords, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

e0 == Trace[l]
Report(s) == \A c \in s : PrintT("VIOL " \o ToString(l) \o " " \o c)

Judge ==
    IF e0.ev = "try"
    THEN (IF e0.alive THEN {} ELSE {"alive"})
         \cup (IF e0.code < 0 THEN {"answer"} ELSE WrongTry(e0.stored, e0.tried, e0.cut, e0.same, e0.code = 0))
    ELSE (IF e0.code \notin 0..125 \ {2} \/ (e0.code # 0 /\ ~e0.said) THEN {"crash"} ELSE {})
         \cup (IF e0.code # 0 /\ ~e0.may THEN {"refused"} ELSE {})
         \cup (IF e0.code = 0 /\ e0.salted /\ e0.first = e0.second THEN {"salt"} ELSE {})
         \cup (IF e0.code = 0 /\ ~e0.clean THEN {"printed"} ELSE {})

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Judge)
Spec == Init /\ [][Next]_l

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
