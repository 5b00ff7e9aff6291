------------------------------- MODULE MCLdif -------------------------------
(***************************************************************************)
(* The server with the LDIF backend as a state machine: two versions of    *)
(* the data, successful and failing reloads, paged searches side by side,  *)
(* binds.  Export hands the alphabet to the conformance driver, which      *)
(* leads the real server through all (state, request) pairs.               *)
(***************************************************************************)
EXTENDS LdapData, Json

CONSTANTS Sizes,     \* page sizes
          Slots      \* names of paged searches

VARIABLES cur, pages, sess, last

vars == <<cur, pages, sess, last>>
View == <<cur, pages, sess>>

B == << << <<"o", "base">> >> >>
V(s) == [c |-> s, s |-> s]
CN(n) == << <<"cn", n>> >>
D(n) == <<CN(n)>> \o B

L == INSTANCE Ldif WITH Base <- B, AnonOK <- FALSE

User(n, p) == [cn |-> {V(n)}, objectclass |-> {V("person")}, userpassword |-> {V(p)}]
Thing(n, x) == [cn |-> {V(n)}, objectclass |-> {V("thing")}, description |-> {V(x)}]

Vers == <<
    [main |-> (B :> [o |-> {V("base")}]) @@ (D("a") :> Thing("a", "1")) @@ (D("b") :> Thing("b", "1")) @@
              (D("c") :> Thing("c", "1")) @@ (D("u") :> User("u", "p1")),
     conf |-> (D("r") :> User("r", "r1"))],
    [main |-> (B :> [o |-> {V("base")}]) @@ (D("b") :> Thing("b", "2")) @@ (D("d") :> Thing("d", "2")) @@
              (D("r") :> User("r", "p3")),
     conf |-> (D("u") :> User("u", "p2"))]
  >>
Known == [p \in {"p1", "p2", "p3", "r1"} |-> {p}]

Things == [k |-> "search", base |-> B, scope |-> "sub", filter |-> [k |-> "eq", t |-> "objectclass", v |-> "thing"], attrs |-> << >>, limit |-> 0]
All == [k |-> "search", base |-> B, scope |-> "sub", filter |-> [k |-> "pres", t |-> "cn"], attrs |-> << >>, limit |-> 0]

Alphabet ==
    { [k |-> "page", id |-> s, use |-> "new", size |-> n] : s \in Slots, n \in Sizes } \cup
    { [k |-> "page", id |-> s, use |-> "cur", size |-> n] : s \in Slots, n \in Sizes \cup {0} } \cup
    { [k |-> "page", id |-> s, use |-> "bogus", size |-> 1] : s \in Slots } \cup
    { [k |-> "reload", to |-> n] : n \in {0, 1, 2} } \cup
    { [k |-> "search"] } \cup
    { [k |-> "bind", dn |-> D(u), pw |-> p] : u \in {"u", "r"}, p \in DOMAIN Known }

\* A slot that was not used yet is a search that is over.
NoPage == [ver |-> Vers[1], op |-> Things, sent |-> {}, st |-> "over"]

Init ==
    /\ cur = 1
    /\ pages = [s \in Slots |-> NoPage]
    /\ sess = Anonymous
    /\ last = [k |-> "none"]

Page(a) ==
    LET pg == IF a.use = "new" THEN L!Begin(Vers[cur], Things) ELSE pages[a.id]
    IN  IF a.use = "bogus" \/ (a.use = "cur" /\ pg.st = "over")
        THEN last' = [k |-> "refused", id |-> a.id] /\ UNCHANGED pages
        ELSE IF a.size = 0
        THEN last' = [k |-> "abandon", id |-> a.id] /\ pages' = [pages EXCEPT ![a.id] = L!Over(pg)]
        ELSE \E got \in SUBSET L!Left(pg), more \in BOOLEAN :
                /\ L!PageOK(pg, a.size, got, more)
                /\ pages' = [pages EXCEPT ![a.id] = L!Continue(pg, got, more)]
                /\ last' = [k |-> "page", id |-> a.id, use |-> a.use, got |-> got, more |-> more]

Step(a) ==
    CASE a.k = "page"   -> Page(a) /\ UNCHANGED <<cur, sess>>
      [] a.k = "reload" -> cur' = (IF a.to = 0 THEN cur ELSE a.to) /\ last' = [k |-> "reload"] /\ UNCHANGED <<pages, sess>>
      [] a.k = "search" -> last' = [k |-> "search", got |-> L!Matches(Vers[cur], All)] /\ UNCHANGED <<cur, pages, sess>>
      [] a.k = "bind"   -> LET ok == L!BindOK(Vers[cur], Known, a.dn, a.pw, TRUE)
                           IN  sess' = (IF ok THEN a.dn ELSE Anonymous) /\ last' = [k |-> "bind", ok |-> ok, dn |-> a.dn, pw |-> a.pw] /\ UNCHANGED <<cur, pages>>

Next == \E a \in Alphabet : Step(a)
Spec == Init /\ [][Next]_vars

\* The client took too long: the search ends, and asking for more is refused.
Expire == \E s \in Slots : pages[s].st = "open" /\ pages' = [pages EXCEPT ![s] = L!Over(@)] /\ last' = [k |-> "expired", id |-> s] /\ UNCHANGED <<cur, sess>>
ExpireSpec == Init /\ [][Next \/ Expire]_vars

\* Asking for the next page again and again.
Follow(s) == \E n \in Sizes : Page([k |-> "page", id |-> s, use |-> "cur", size |-> n]) /\ UNCHANGED <<cur, sess>>
NoRestart == \E a \in Alphabet : (a.k = "page" /\ a.use = "new" => pages[a.id].st = "over") /\ Step(a)
FairSpec == Init /\ [][NoRestart]_vars /\ \A s \in Slots : WF_<<pages>>(Follow(s))

-----------------------------------------------------------------------------
\* Nothing is delivered that does not belong to the version the search began with.
SentOK == \A s \in Slots : pages[s].sent \subseteq L!Matches(pages[s].ver, pages[s].op)

\* A search that ended by itself has delivered everything, and nothing twice.
Complete ==
    [][ last'.k = "page" =>
          LET s == last'.id
              before == IF last'.use = "new" THEN {} ELSE pages[s].sent
          IN  /\ last'.got \cap before = {}
              /\ ~last'.more => before \cup last'.got = L!Matches(pages'[s].ver, Things) ]_vars

\* Reloads do not disturb searches under way, and answers come from one version.
Isolated == [][ cur' # cur => pages' = pages /\ sess' = sess ]_vars
OneVersion == [][ last'.k = "search" => \E v \in {1, 2} : last'.got = { d \in DOMAIN Vers[v].main : "cn" \in DOMAIN Vers[v].main[d] } ]_vars

\* Only the bind entries accept binds, with their own password.
BindRight == [][ last'.k = "bind" /\ last'.ok =>
    \E v \in {cur} : \/ last'.dn \in DOMAIN Vers[v].conf /\ V(last'.pw) \in Vers[v].conf[last'.dn].userpassword
                     \/ last'.dn \notin DOMAIN Vers[v].conf /\ V(last'.pw) \in Vers[v].main[last'.dn].userpassword ]_vars

\* Followed searches end.
Ends == \A s \in Slots : (pages[s].st = "open") ~> (pages[s].st = "over")

Lists(f) == { [dn |-> d, attrs |-> f[d]] : d \in DOMAIN f }
Export ==
    \/ TLCGet("level") # 1
    \/ PrintT("WALK " \o ToJson(
         [ops  |-> Alphabet, base |-> B, known |-> Known,
          things |-> Things, all |-> All,
          vers |-> [i \in DOMAIN Vers |-> [main |-> Lists(Vers[i].main), conf |-> Lists(Vers[i].conf)]]]))
=============================================================================
