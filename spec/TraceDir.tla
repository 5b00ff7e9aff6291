------------------------------ MODULE TraceDir ------------------------------
(***************************************************************************)
(* Validation of recorded executions of the real server against Directory. *)
(*                                                                         *)
(* The trace is a sequence of records (newline separated JSON), one per    *)
(* request, with the answer of the server and the number of the line that  *)
(* holds the stored directory after it, read from the database file.       *)
(* Every step of the trace has to be a step that Directory allows; the     *)
(* next state of the run is always the observed one, so that one deviation *)
(* does not hide or cause others.  Deviations are reported under the name  *)
(* of the clause of the specification that rejects the step.               *)
(***************************************************************************)
EXTENDS Stored, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, tree, known, sess

vars == <<l, cfg, tree, known, sess>>

D == INSTANCE Directory WITH
        Base <- cfg.base, Admin <- cfg.admin, AnonOK <- cfg.anon, Refusals <- 1..199

-----------------------------------------------------------------------------
(* Reading records *)

Sets(a) == [t \in DOMAIN a |-> Range(a[t])]

TreeAt(n) ==
    LET es == Trace[n].entries
        ds == { es[i].dn : i \in DOMAIN es }
    IN  [d \in ds |-> Sets(es[CHOOSE i \in DOMAIN es : es[i].dn = d].attrs)]

Op(o) == IF o.k = "add" THEN [o EXCEPT !.attrs = Sets(o.attrs)] ELSE o

\* Function update and domain extension.
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

-----------------------------------------------------------------------------
(* Clauses: each yields the set of names of the violated ones.             *)

Clause(name, holds) == IF holds THEN {} ELSE {name}

Id(e) == IF e.conn \in DOMAIN sess THEN sess[e.conn] ELSE Anonymous

JudgeWrite(e, post) ==
    LET op == Op(e.op)
        outs == D!Write(tree, Id(e), op)
        ok == \E o \in outs : e.res \in o.codes /\ o.tree = post
    IN  IF ok THEN {}
        ELSE IF ~D!IsAdmin(Id(e))
             THEN Clause("authz", e.res # 0 /\ post = tree) \cup
                  Clause("authzcode", e.res \in {50})
        ELSE IF e.res = 50 THEN {"ident", op.k}
        ELSE {op.k} \cup
             (IF e.res # 0 /\ post # tree THEN {"trace-left"} ELSE {})

JudgeBind(e, post) ==
    LET ok == D!BindOK(tree, known, e.op.dn, e.op.pw, e.local)
    IN  Clause("bind", ok = (e.res = 0)) \cup
        Clause("bindcode", ok \/ e.res \in 1..199) \cup
        Clause("authz", post = tree)

\* A bind that is not a simple bind to a name with the supported version of
\* the protocol fails.  The server may also hang up.
JudgeOddBind(e, post) ==
    Clause("bind", e.res # 0) \cup Clause("authz", post = tree)

\* Password modify: e.op = [k, target, old, new]; e.gen the generated
\* password returned by the server ("" if none); the stored form is taken
\* from the observed state.
PwPost(e, post) ==
    LET t == D!PwTarget(Id(e), e.op.target)
        vs == IF t \in DOMAIN post THEN ValuesOf(post[t], D!PW) ELSE {}
    IN  vs

NewPw(e) == IF e.op.new = "" THEN e.gen ELSE e.op.new

JudgePw(e, post) ==
    LET id == Id(e)
        t == D!PwTarget(id, e.op.target)
        can == D!CanSetPw(tree, known, id, e.op.target, e.op.old)
    IN  IF can
        THEN Clause("pw", e.res = 0) \cup
             Clause("pw", e.res = 0 =>
                 /\ (e.op.new = "" <=> e.gen # "")
                 /\ Cardinality(PwPost(e, post)) = 1
                 /\ \A sv \in PwPost(e, post) : post = D!SetPw(tree, t, sv)) \cup
             Clause("pw", e.res # 0 => post = tree)
        ELSE Clause("pw", e.res \in 1..199 /\ e.gen = "") \cup
             Clause("pw", post = tree) \cup
             Clause("authz", (id = Anonymous \/ (id # t /\ ~D!IsAdmin(id))) => post = tree)

GotDNs(e) == { e.got[i].dn : i \in DOMAIN e.got }

JudgeSearch(e, post) ==
    LET id == Id(e)
        want == D!Matches(tree, e.op.base, e.op.scope, e.op.filter)
        inscope == { d \in DOMAIN tree : InScope(e.op.scope, e.op.base, d) }
        over == e.op.limit > 0 /\ Cardinality(want) > e.op.limit
        got == GotDNs(e)
    IN  Clause("authz", post = tree) \cup
        IF ~D!CanSearch(id, e.local)
        THEN Clause("anonread", Len(e.got) = 0)
        ELSE Clause("search", Len(e.got) = Cardinality(got)) \cup
             Clause("scope", got \subseteq inscope) \cup
             Clause("filter", (got \cap inscope) \subseteq want) \cup
             (IF over \/ want \subseteq got THEN {} ELSE {"search", "filter"}) \cup
             (IF e.op.limit = 0 THEN Clause("search", e.res = 0)
              ELSE Clause("size", Len(e.got) <= e.op.limit /\ (over => Len(e.got) = e.op.limit)) \cup
                   Clause("size", IF over THEN e.res = 4 ELSE e.res = 0)) \cup
             Clause("attrs", \A i \in DOMAIN e.got :
                 LET g == e.got[i]
                 IN  g.dn \in DOMAIN tree =>
                     /\ g.dup = 0
                     /\ Sets(g.attrs) = Project(tree[g.dn], e.op.attrs))

-----------------------------------------------------------------------------
Report(s, n) == \A c \in s : PrintT("VIOL " \o ToString(n) \o " " \o c)

Init ==
    /\ l = 1
    /\ cfg = [base |-> << >>, admin |-> << >>, anon |-> FALSE]
    /\ tree = EmptyFcn /\ known = EmptyFcn /\ sess = EmptyFcn

e0 == Trace[l]

\* A new server instance: configuration, password table, stored state.
NewRun ==
    /\ e0.ev = "run"
    /\ cfg' = [base |-> e0.base, admin |-> e0.admin, anon |-> e0.anon]
    /\ known' = [s \in DOMAIN e0.known |-> Range(e0.known[s])]
    /\ tree' = TreeAt(e0.state)
    /\ sess' = EmptyFcn
    /\ Report(Clause("tree", RawOK(e0.base, Trace[e0.state].raw)), l)

Table == e0.ev = "state" /\ UNCHANGED <<cfg, tree, known, sess>>

Open == e0.ev = "open" /\ sess' = With(sess, e0.conn, Anonymous) /\ UNCHANGED <<cfg, tree, known>>
Close == e0.ev = "close" /\ sess' = [c \in DOMAIN sess \ {e0.conn} |-> sess[c]] /\ UNCHANGED <<cfg, tree, known>>

\* The server was stopped and started again on the same database: the stored
\* directory is the same and every session is gone.
Restart ==
    /\ e0.ev = "restart"
    /\ sess' = EmptyFcn
    /\ tree' = TreeAt(e0.state)
    /\ Report(Clause("durable", tree' = tree), l)
    /\ UNCHANGED <<cfg, known>>

Request ==
    /\ e0.ev = "op"
    /\ LET same == e0.state = 0
           post == IF same THEN tree ELSE TreeAt(e0.state)
           bad == CASE e0.op.k \in {"add", "delete", "modify", "rename"} -> JudgeWrite(e0, post)
                    [] e0.op.k = "bind"   -> JudgeBind(e0, post)
                    [] e0.op.k = "oddbind" -> JudgeOddBind(e0, post)
                    [] e0.op.k = "pw"     -> JudgePw(e0, post)
                    [] e0.op.k = "search" -> JudgeSearch(e0, post)
       IN  /\ Report(bad, l)
           /\ Report(Clause("tree", IF same THEN TRUE
                                    ELSE /\ RawOK(cfg.base, Trace[e0.state].raw)
                                         /\ Trace[e0.state].dups = 0
                                         /\ IdsOK(Trace[e0.prev].raw, Trace[e0.state].raw)), l)
           /\ Report(Clause("answer", e0.res >= 0 \/ e0.op.k = "oddbind"), l)
           /\ tree' = post
           /\ known' = IF e0.op.k = "pw" /\ e0.res = 0
                       THEN [s \in DOMAIN known \cup { v.s : v \in PwPost(e0, post) } |->
                               IF s \in { v.s : v \in PwPost(e0, post) } THEN {NewPw(e0)} ELSE known[s]]
                       ELSE known
           /\ sess' = IF e0.op.k = "bind"
                      THEN With(sess, e0.conn, D!BindIdentity(e0.res = 0, e0.op.dn))
                      ELSE IF e0.op.k = "oddbind" THEN With(sess, e0.conn, Anonymous)
                      ELSE sess
    /\ UNCHANGED cfg

\* The server process ended by itself: never allowed.
Dead == e0.ev = "dead" /\ Report({"alive"}, l) /\ UNCHANGED <<cfg, tree, known, sess>>

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ NewRun \/ Table \/ Open \/ Close \/ Restart \/ Request \/ Dead

Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
