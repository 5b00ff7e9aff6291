-------------------------------- MODULE Ldif --------------------------------
(***************************************************************************)
(* The server with the LDIF backend as its clients see it.                 *)
(*                                                                         *)
(* A version of the data is a record [main, conf]: the entries of the main *)
(* file(s) and those of the bind-only configuration file, each a function  *)
(* from DNs to attributes.  The data only changes as a whole, by a reload. *)
(*                                                                         *)
(* A paged search is a record [ver, op, sent, st]: it stays with the       *)
(* version it began with, sent is what was delivered so far, st is "open"  *)
(* or "over".                                                              *)
(***************************************************************************)
EXTENDS LdapData

CONSTANTS Base, AnonOK

PW == "userpassword"

\* Passwords are no part of what can be searched.
Visible(attrs) == [t \in DOMAIN attrs \ {PW} |-> attrs[t]]
View(ver) == [d \in DOMAIN ver.main |-> Visible(ver.main[d])]

Cred(known, attrs) ==
    UNION { IF v.s \in DOMAIN known THEN known[v.s] ELSE {} : v \in ValuesOf(attrs, PW) }

\* An entry of the configuration file hides one of the same name in the main file.
BindOK(ver, known, d, pw, local) ==
    IF d = << >> THEN AnonOK /\ local /\ pw = ""
    ELSE /\ pw # ""
         /\ IsBelowOrEqual(Base, d)
         /\ IF d \in DOMAIN ver.conf THEN pw \in Cred(known, ver.conf[d])
            ELSE d \in DOMAIN ver.main /\ pw \in Cred(known, ver.main[d])

CanSearch(id, local) == id # Anonymous \/ (AnonOK /\ local)

\* Entries need not have a parent here; only the scope and the filter count.
Matches(ver, op) ==
    IF ~IsBelowOrEqual(Base, op.base) THEN {}
    ELSE { d \in DOMAIN ver.main : InScope(op.scope, op.base, d) /\ Eval(op.filter, Visible(ver.main[d])) }

RECURSIVE Mentions(_, _)
Mentions(f, t) ==
    IF f.k \in {"and", "or", "not"} THEN \E i \in DOMAIN f.fs : Mentions(f.fs[i], t) ELSE f.t = t

-----------------------------------------------------------------------------
(* Paging *)

Begin(ver, op) == [ver |-> ver, op |-> op, sent |-> {}, st |-> "open"]

Left(pg) == Matches(pg.ver, pg.op) \ pg.sent

\* An answer with the entries got, and more telling whether a cookie came with it.
\* The number of entries of a page and the place of the end are up to the
\* server, but it has to get ahead.
PageOK(pg, size, got, more) ==
    /\ got \subseteq Left(pg)
    /\ Cardinality(got) <= size
    /\ IF more THEN got # {} ELSE got = Left(pg)

Continue(pg, got, more) ==
    [pg EXCEPT !.sent = @ \cup got, !.st = IF more THEN "open" ELSE "over"]

Over(pg) == [pg EXCEPT !.st = "over"]

=============================================================================
