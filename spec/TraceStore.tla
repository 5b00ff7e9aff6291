----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Recorded executions of the real server with what it did to the disk.    *)
(* In addition to the requests of TraceDir:                                *)
(*                                                                         *)
(*   image   what a power failure at some point of the following request   *)
(*           leaves behind: the database file rebuilt from the recorded    *)
(*           writes, with some of those not yet synchronised missing       *)
(*   served  what a real server started on such a file serves              *)
(*   fault   a request during which a write or a synchronisation failed    *)
(***************************************************************************)
EXTENDS TraceDir

\* The directory after the request, which is the next step of the trace.
PostOf(e) == IF e.post = 0 THEN tree ELSE TreeAt(e.post)

Image ==
    /\ e0.ev = "image"
    /\ Report(IF ~e0.opens THEN {"opens"}
              ELSE LET found == TreeAt(e0.state)
                   IN  Clause("lost", e0.acked => found = PostOf(e0)) \cup
                       Clause("partial", ~e0.acked => found \in {tree, PostOf(e0)}) \cup
                       Clause("tree", RawOK(cfg.base, Trace[e0.state].raw) /\ Trace[e0.state].dups = 0), l)
    /\ UNCHANGED <<cfg, tree, known, sess>>

Served ==
    /\ e0.ev = "served"
    /\ LET t == TreeAt(e0.state)
           all == { d \in DOMAIN t : "objectclass" \in DOMAIN t[d] }      \* what was searched for
       IN  Report(Clause("serves", e0.starts) \cup
                  (IF ~e0.starts THEN {}
                   ELSE Clause("serves", e0.code = 0 /\ Len(e0.got) = Cardinality(all)) \cup
                        Clause("serves", \A i \in DOMAIN e0.got :
                            e0.got[i].dn \in all /\ Sets(e0.got[i].attrs) = t[e0.got[i].dn]) \cup
                        Clause("serves", e0.tried =>
                            /\ e0.write = 0
                            /\ RawOK(cfg.base, Trace[e0.after].raw)
                            /\ TreeAt(e0.after) = D!Put(t, e0.probe, Sets(e0.attrs)))), l)
    /\ UNCHANGED <<cfg, tree, known, sess>>

\* All the directories that a request may leave behind if its disk fails.
Possible(e, post) ==
    {tree} \cup
    CASE e.op.k \in {"add", "delete", "modify", "rename"} -> { o.tree : o \in D!Write(tree, Id(e), Op(e.op)) }
      [] e.op.k = "pw" -> { D!SetPw(tree, D!PwTarget(Id(e), e.op.target), sv) : sv \in
                              (IF D!CanSetPw(tree, known, Id(e), e.op.target, e.op.old) THEN PwPost(e, post) ELSE {}) }
      [] OTHER -> {}

Fault ==
    /\ e0.ev = "fault"
    /\ LET post == IF e0.state = 0 THEN tree ELSE TreeAt(e0.state)
       IN  /\ Report(Clause("failed", e0.res \in 1..199) \cup
                     Clause("partial", post \in Possible(e0, post)) \cup
                     Clause("tree", e0.state = 0 \/ (RawOK(cfg.base, Trace[e0.state].raw) /\ Trace[e0.state].dups = 0)), l)
           /\ tree' = post
           /\ known' = IF e0.op.k = "pw" /\ post # tree
                       THEN [s \in DOMAIN known \cup { v.s : v \in PwPost(e0, post) } |->
                               IF s \in { v.s : v \in PwPost(e0, post) } THEN {NewPw(e0)} ELSE known[s]]
                       ELSE known
    /\ UNCHANGED <<cfg, sess>>

StoreNext ==
    \/ Next
    \/ /\ l <= Len(Trace)
       /\ l' = l + 1
       /\ Image \/ Served \/ Fault

StoreSpec == Init /\ [][StoreNext]_vars
=============================================================================
