------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* Who may read.  A connection is                                          *)
(*   "none"  never bound, or the last bind failed                          *)
(*   "anon"  bound without credentials                                     *)
(*   "user"  bound as an existing entry with its password                  *)
(* Reading without having authenticated is possible only if it was enabled *)
(* and the client is on the same machine.                                  *)
(***************************************************************************)

EXTENDS Naturals

\* The kinds of requests.
Binds == {"good", "anon", "unauth", "pwonly", "wrong", "unknown", "outside"}
Searches == {"base", "one", "sub", "above", "paged", "resume"}

AnonAllowed(al, lo) == al /\ lo

MayBind(kind, al, lo) == kind = "good" \/ (kind = "anon" /\ AnonAllowed(al, lo))

AfterBind(kind, accepted) ==
    IF ~accepted THEN "none" ELSE IF kind = "anon" THEN "anon" ELSE "user"

MayRead(se, al, lo) == se = "user" \/ AnonAllowed(al, lo)

\* Searches that find something if allowed.  "above" has a base outside of the
\* directory; "resume" continues the paged search of somebody else.
Finds(kind) == kind \in {"base", "one", "sub", "paged"}

BindWrong(kind, al, lo, accepted) ==
    (IF accepted /\ ~MayBind(kind, al, lo) THEN {IF kind = "anon" THEN "anonbind" ELSE "bind"} ELSE {})
    \cup (IF ~accepted /\ MayBind(kind, al, lo) THEN {"refused"} ELSE {})

SearchWrong(kind, se, al, lo, found) ==
    (IF found > 0 /\ ~MayRead(se, al, lo) THEN {"leak"} ELSE {})
    \cup (IF found = 0 /\ MayRead(se, al, lo) /\ Finds(kind) THEN {"denied"} ELSE {})
=============================================================================
