--------------------------- MODULE TraceTemplate ---------------------------
(***************************************************************************)
(* Judges recorded starts of the server with LDIF templates by Template.   *)
(* An event: the parts (one template each, with its base folder and its    *)
(* items), the files and folders around, whether the server started, and   *)
(* the values found by searching.  Parts that are used for binding only    *)
(* have no values.                                                         *)
(***************************************************************************)
EXTENDS Template, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

e0 == Trace[l]
Report(s) == \A c \in s : PrintT("VIOL " \o ToString(l) \o " " \o c)

Files(fs) == LET ps == { fs[i].path : i \in DOMAIN fs }
             IN  [p \in ps |-> fs[CHOOSE i \in DOMAIN fs : fs[i].path = p]]
Dirs(ds) == { ds[i] : i \in DOMAIN ds }

Judge ==
    LET fs == Files(e0.files)
        ds == Dirs(e0.dirs)
        must == \E i \in DOMAIN e0.parts : MustFail(e0.parts[i].base, fs, e0.limit, e0.parts[i].items)
        may == must \/ \E i \in DOMAIN e0.parts : MayFail(e0.parts[i].base, fs, ds, e0.limit, e0.parts[i].items)
    IN  (IF e0.ok /\ must THEN {"forbidden"} ELSE {})
        \cup (IF ~e0.ok /\ ~may THEN {"refused"} ELSE {})
        \cup (IF ~e0.ok /\ (e0.code \notin 1..125 \ {2} \/ ~e0.said) THEN {"crash"} ELSE {})
        \cup (IF ~e0.ok THEN {}
              ELSE UNION { Wrong(e0.parts[i].base, fs, e0.parts[i].items, e0.parts[i].vals, e0.company) : i \in { x \in DOMAIN e0.parts : e0.parts[x].seen } })

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Judge)
Spec == Init /\ [][Next]_l

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
