------------------------------ MODULE Directory ------------------------------
(***************************************************************************)
(* The directory server as its clients see it (database backend):          *)
(*                                                                         *)
(*   tree   - the stored entries: a function from DNs to attributes        *)
(*   sess   - the identity every open connection is bound as               *)
(*   known  - for every stored password string, the set of clear texts it  *)
(*            accepts (Cred below)                                         *)
(*                                                                         *)
(* Every request is one atomic step.  Exec(...) gives, for a state, a      *)
(* connection and a request, the allowed result codes and the next state;  *)
(* the next-state relation of the model and the conformance modules use    *)
(* the same operators.                                                     *)
(***************************************************************************)
EXTENDS LdapData

CONSTANTS
    Base,            \* DN of the base entry
    Admin,           \* DN of the administrator, << >> if none is configured
    AnonOK,          \* local anonymous access enabled
    Refusals         \* result codes that count as "refused"

Success        == 0
ProtocolError  == 2
SizeExceeded   == 4
InvalidCred    == 49
NoAccess       == 50
Unwilling      == 53
NotOnRDN       == 67
EntryExists    == 68

PW == "userpassword"

IsLeaf(tree, d) == ~\E x \in DOMAIN tree : Len(x) = Len(d) + 1 /\ IsAncestor(d, x)

IsAdmin(id) == Admin # << >> /\ id = Admin

Put(tree, d, attrs) == [x \in DOMAIN tree \cup {d} |-> IF x = d THEN attrs ELSE tree[x]]
Drop(tree, d)       == [x \in DOMAIN tree \ {d} |-> tree[x]]

\* The clear texts accepted by the password stored in attrs.
Cred(known, attrs) ==
    UNION { IF v.s \in DOMAIN known THEN known[v.s] ELSE {} : v \in ValuesOf(attrs, PW) }

-----------------------------------------------------------------------------
(* The individual requests.  Each yields the set of permitted outcomes     *)
(* [codes, tree]: any of the result codes, together with the next tree.    *)

Refused(tree, codes) == { [codes |-> codes, tree |-> tree] }
Done(tree)           == { [codes |-> {Success}, tree |-> tree] }

CanAdd(tree, d) ==
    /\ d \notin DOMAIN tree
    /\ d = Base \/ (IsAncestor(Base, d) /\ Parent(d) \in DOMAIN tree)

DoAdd(tree, d, attrs) ==
    IF d \in DOMAIN tree THEN Refused(tree, {EntryExists})
    ELSE IF CanAdd(tree, d) THEN Done(Put(tree, d, attrs))
    ELSE Refused(tree, Refusals)

CanDelete(tree, d) == d \in DOMAIN tree /\ d # Base /\ IsLeaf(tree, d)

DoDelete(tree, d) ==
    IF CanDelete(tree, d) THEN Done(Drop(tree, d)) ELSE Refused(tree, Refusals)

DoModify(tree, d, chs) ==
    IF d \notin DOMAIN tree THEN Refused(tree, Refusals)
    ELSE LET r == ApplyChanges(tree[d], d[1], chs)
         IN  IF r.ok THEN Done(Put(tree, d, r.attrs))
             ELSE Refused(tree, {NotOnRDN})

\* newrdn is an RDN plus the spelling of its values: a sequence of
\* [t |-> type, v |-> value].
RdnOf(newrdn) == [i \in DOMAIN newrdn |-> <<newrdn[i].t, newrdn[i].v.c>>]

RECURSIVE AddRdnValues(_, _)
AddRdnValues(attrs, newrdn) ==
    IF newrdn = << >> THEN attrs
    ELSE LET h == Head(newrdn)
         IN  AddRdnValues(SetValues(attrs, h.t, AddValues(ValuesOf(attrs, h.t), <<h.v>>)), Tail(newrdn))

DelOldRdn(attrs, oldrdn, keep) ==
    [t \in { x \in DOMAIN attrs :
               \E v \in attrs[x] : <<x, v.c>> \notin (RdnPairs(oldrdn) \ keep) }
        |-> { v \in attrs[t] : <<t, v.c>> \notin (RdnPairs(oldrdn) \ keep) }]

\* If old and new relative name share a value, the code refuses to drop the
\* old name (it would have to keep the shared value); both outcomes are fine.
DoRename(tree, d, newrdn, delold) ==
    LET rdn == RdnOf(newrdn)
        nd  == <<rdn>> \o Parent(d)
        shared == RdnPairs(rdn) \cap RdnPairs(d[1])
        ok  == Done(Put(Drop(tree, d), nd,
                        AddRdnValues(IF delold THEN DelOldRdn(tree[d], d[1], shared) ELSE tree[d], newrdn)))
    IN  IF d \notin DOMAIN tree \/ d = Base \/ ~IsLeaf(tree, d)
        THEN Refused(tree, IF nd \in DOMAIN tree THEN Refusals \cup {EntryExists} ELSE Refusals)
        ELSE IF nd \in DOMAIN tree THEN Refused(tree, {EntryExists})
        ELSE IF delold /\ shared # {} THEN ok \cup Refused(tree, {NotOnRDN})
        ELSE ok

\* Password modify: target << >> means the requester's own entry.
PwTarget(id, target) == IF target = << >> THEN id ELSE target

CanSetPw(tree, known, id, target, old) ==
    LET t == PwTarget(id, target)
    IN  /\ id # Anonymous
        /\ id = t \/ IsAdmin(id)
        /\ t \in DOMAIN tree
        /\ old = "" \/ old \in Cred(known, tree[t])

\* A stored form `sv` of the new password replaces all previous ones.
SetPw(tree, t, sv) == Put(tree, t, SetValues(tree[t], PW, {sv}))

-----------------------------------------------------------------------------
(* Binding *)

BindOK(tree, known, d, pw, local) ==
    IF d = << >> THEN AnonOK /\ local /\ pw = ""
    ELSE /\ pw # ""
         /\ d \in DOMAIN tree
         /\ pw \in Cred(known, tree[d])

\* A failed bind leaves the connection anonymous.
BindIdentity(ok, d) == IF ok THEN d ELSE Anonymous

-----------------------------------------------------------------------------
(* Searching *)

CanSearch(id, local) == id # Anonymous \/ (AnonOK /\ local)

Matches(tree, base, scope, f) ==
    IF base \notin DOMAIN tree THEN {}
    ELSE { d \in DOMAIN tree : InScope(scope, base, d) /\ Eval(f, tree[d]) }

-----------------------------------------------------------------------------
(* Authorised writes *)

DoWrite(tree, op) ==
    CASE op.k = "add"    -> DoAdd(tree, op.dn, op.attrs)
      [] op.k = "delete" -> DoDelete(tree, op.dn)
      [] op.k = "modify" -> DoModify(tree, op.dn, op.chs)
      [] op.k = "rename" -> DoRename(tree, op.dn, op.newrdn, op.delold)

Write(tree, id, op) ==
    IF IsAdmin(id) THEN DoWrite(tree, op) ELSE Refused(tree, {NoAccess})

-----------------------------------------------------------------------------
(* What "well formed" means. *)

TreeOK(tree) ==
    \A d \in DOMAIN tree :
        /\ IsBelowOrEqual(Base, d)
        /\ d # Base => Parent(d) \in DOMAIN tree

=============================================================================
