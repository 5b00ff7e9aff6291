----------------------------- MODULE TraceLdif -----------------------------
(***************************************************************************)
(* Validation of recorded executions of the server with the LDIF backend.  *)
(* As in TraceDir, the run continues from what was observed.               *)
(***************************************************************************)
EXTENDS LdapData, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, vers, known, cur, sess, pages

vars == <<l, cfg, vers, known, cur, sess, pages>>

L == INSTANCE Ldif WITH Base <- cfg.base, AnonOK <- cfg.anon

Sets(a) == [t \in DOMAIN a |-> Range(a[t])]

Entries(es) ==
    LET ds == { es[i].dn : i \in DOMAIN es }
    IN  [d \in ds |-> Sets(es[CHOOSE i \in DOMAIN es : es[i].dn = d].attrs)]

With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

Clause(name, holds) == IF holds THEN {} ELSE {name}
Report(s, n) == \A c \in s : PrintT("VIOL " \o ToString(n) \o " " \o c)

Id(e) == IF e.conn \in DOMAIN sess THEN sess[e.conn] ELSE Anonymous

Now == vers[cur]

Init ==
    /\ l = 1
    /\ cfg = [base |-> << >>, anon |-> FALSE]
    /\ vers = << >> /\ known = EmptyFcn /\ cur = 0 /\ sess = EmptyFcn /\ pages = EmptyFcn

e0 == Trace[l]

NewRun ==
    /\ e0.ev = "run"
    /\ cfg' = [base |-> e0.base, anon |-> e0.anon]
    /\ vers' = [i \in DOMAIN e0.vers |-> [main |-> Entries(e0.vers[i].main), conf |-> Entries(e0.vers[i].conf)]]
    /\ known' = [s \in DOMAIN e0.known |-> Range(e0.known[s])]
    /\ cur' = 1
    /\ sess' = EmptyFcn /\ pages' = EmptyFcn

Open == e0.ev = "open" /\ sess' = With(sess, e0.conn, Anonymous) /\ UNCHANGED <<cfg, vers, known, cur, pages>>
Close == e0.ev = "close" /\ sess' = [c \in DOMAIN sess \ {e0.conn} |-> sess[c]] /\ UNCHANGED <<cfg, vers, known, cur, pages>>

\* to = 0: the files were broken, nothing may change.  Otherwise the driver
\* waited until the new version was visible (seen).
Reload ==
    /\ e0.ev = "reload"
    /\ Report(Clause("reload", e0.seen), l)
    /\ cur' = IF e0.to = 0 THEN cur ELSE e0.to
    /\ UNCHANGED <<cfg, vers, known, sess, pages>>

Got(e) == { e.got[i].dn : i \in DOMAIN e.got }

\* Whatever is returned has to be an entry of the version, as it is, without passwords.
JudgeEntries(ver, op, e) ==
    LET got == Got(e)
        want == L!Matches(ver, op)
        view == L!View(ver)
    IN  Clause("search", Len(e.got) = Cardinality(got)) \cup
        Clause("scope", \A d \in got : InScope(op.scope, op.base, d)) \cup
        Clause("filter", \A d \in got \cap DOMAIN view : Eval(op.filter, view[d])) \cup
        Clause("search", got \subseteq want) \cup
        Clause("secret", \A i \in DOMAIN e.got : L!PW \notin DOMAIN e.got[i].attrs) \cup
        Clause("secret", \A d \in got : d \in DOMAIN ver.conf => d \in DOMAIN ver.main) \cup
        Clause("secret", got \subseteq want \/ ~L!Mentions(op.filter, L!PW)) \cup
        Clause("attrs", \A i \in DOMAIN e.got :
            e.got[i].dn \in DOMAIN view =>
                /\ e.got[i].dup = 0
                /\ Sets(e.got[i].attrs) = Project(view[e.got[i].dn], op.attrs))

JudgeSearch(e) ==
    LET want == L!Matches(Now, e.op)
        short == e.op.limit > 0 /\ Cardinality(want) > e.op.limit
    IN  IF ~L!CanSearch(Id(e), e.local)
        THEN Clause("anonread", Len(e.got) = 0)
        ELSE JudgeEntries(Now, e.op, e) \cup
             (IF IsBelowOrEqual(cfg.base, e.op.base) THEN Clause("search", e.res \in {0} \/ (short /\ e.res = 4)) ELSE {}) \cup
             Clause("size", e.op.limit > 0 => Len(e.got) <= e.op.limit) \cup
             (IF short THEN Clause("size", Len(e.got) = e.op.limit)
              ELSE IF want \subseteq Got(e) THEN {}
              ELSE {"search", "filter"} \cup Clause("secret", ~L!Mentions(e.op.filter, L!PW)))

JudgeBind(e) ==
    LET ok == L!BindOK(Now, known, e.op.dn, e.op.pw, e.local)
    IN  Clause("bind", ok = (e.res = 0)) \cup Clause("bindcode", ok \/ e.res \in 1..199 \/ e.res = -1)

Request ==
    /\ e0.ev = "op"
    /\ Report(CASE e0.op.k = "search" -> JudgeSearch(e0)
                [] e0.op.k = "bind" -> JudgeBind(e0)
                [] OTHER -> Clause("readonly", e0.res \in 1..199), l)
    /\ Report(Clause("answer", e0.res >= 0), l)
    /\ sess' = IF e0.op.k = "bind" THEN With(sess, e0.conn, IF e0.res = 0 THEN e0.op.dn ELSE Anonymous) ELSE sess
    /\ UNCHANGED <<cfg, vers, known, cur, pages>>

\* One request of a paged search.  use: "new" no cookie, "cur" the latest
\* cookie of the search id, "bogus" a cookie the server never issued.
Page ==
    /\ e0.ev = "page"
    /\ LET pg == IF e0.use = "new" THEN L!Begin(Now, e0.op) ELSE pages[e0.id]
           none == Len(e0.got) = 0 /\ ~e0.more
           dead == e0.use = "bogus" \/ (e0.use = "cur" /\ pg.st = "over")
       IN  IF e0.use = "bogus" \/ dead
           THEN /\ Report(Clause("page", e0.res \in 1..199 /\ none), l)
                /\ UNCHANGED pages
           ELSE IF e0.late /\ e0.res \in 1..199  \* the server need not wait forever, but has to say so
           THEN /\ Report(Clause("page", none), l)
                /\ pages' = With(pages, e0.id, L!Over(pg))
           ELSE IF e0.size = 0
           THEN /\ Report(Clause("page", e0.res = 0 /\ none), l)
                /\ pages' = With(pages, e0.id, L!Over(pg))
           ELSE /\ Report(Clause("page", e0.res = 0 /\ Len(e0.got) = Cardinality(Got(e0)) /\ L!PageOK(pg, e0.size, Got(e0), e0.more)), l)
                /\ Report(JudgeEntries(pg.ver, pg.op, e0) \cap {"secret", "attrs"}, l)
                /\ pages' = With(pages, e0.id, L!Continue(pg, Got(e0), e0.more))
    /\ Report(Clause("answer", e0.res >= 0), l)
    /\ UNCHANGED <<cfg, vers, known, cur, sess>>

Dead == e0.ev = "dead" /\ Report({"alive"}, l) /\ UNCHANGED <<cfg, vers, known, cur, sess, pages>>

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ NewRun \/ Open \/ Close \/ Reload \/ Request \/ Page \/ Dead

Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
