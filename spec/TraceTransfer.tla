--------------------------- MODULE TraceTransfer ---------------------------
(***************************************************************************)
(* Judges recorded runs of the load and export commands by Transfer.       *)
(*   new     an empty database                                             *)
(*   adopt   a database left behind by a server, e.post its content        *)
(*   load    a file was loaded                                             *)
(*   export  the directory was exported, e.out is what an independent      *)
(*           reader finds in the output                                    *)
(*   again   the last export was loaded into an empty database             *)
(*   full    the export could not be written                               *)
(***************************************************************************)
EXTENDS Transfer, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, base, tree

vars == <<l, base, tree>>

e0 == Trace[l]
Report(s) == \A c \in s : PrintT("VIOL " \o ToString(l) \o " " \o c)

Sets(a) == [t \in DOMAIN a |-> Range(a[t])]
Ent(es) == [i \in DOMAIN es |-> [es[i] EXCEPT !.attrs = Sets(es[i].attrs)]]
TreeOf(es) ==
    LET ds == { es[i].dn : i \in DOMAIN es }
    IN  [d \in ds |-> Sets(es[CHOOSE i \in DOMAIN es : es[i].dn = d].attrs)]
Post == TreeOf(e0.post)

Dups == IF e0.dups > 0 THEN {"dups"} ELSE {}

Init == l = 1 /\ base = << >> /\ tree = EmptyFcn

Step ==
    \/ e0.ev = "new" /\ base' = e0.base /\ tree' = EmptyFcn
    \/ e0.ev = "adopt" /\ base' = e0.base /\ tree' = Post
    \/ /\ e0.ev = "load"
       /\ Report(LoadWrong(base, tree, Ent(e0.recs), e0.wf, e0.code, e0.said, Post) \cup Dups)
       /\ tree' = Post /\ UNCHANGED base
    \/ /\ e0.ev = "export"
       /\ Report(ExportWrong(base, tree, Ent(e0.out), e0.code) \cup Dups \cup (IF Post # tree THEN {"changed"} ELSE {}))
       /\ tree' = Post /\ UNCHANGED base
    \/ /\ e0.ev = "again"
       /\ Report((IF e0.code # 0 \/ Post # tree THEN {"again"} ELSE {}) \cup Dups)
       /\ UNCHANGED <<base, tree>>
    \/ /\ e0.ev = "full"
       /\ Report(IF e0.code = 0 \/ ~e0.said THEN {"full"} ELSE {})
       /\ UNCHANGED <<base, tree>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ Step

Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
