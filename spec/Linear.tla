------------------------------- MODULE Linear -------------------------------
(***************************************************************************)
(* Concurrent clients of the directory.  Directory says what one request   *)
(* does to one state; here a set of requests with the times of sending and *)
(* answering has to be explained by executing them one at a time, in an    *)
(* order that respects which of them were over before others began.        *)
(*                                                                         *)
(* A finished request is a record                                          *)
(*   [id, op, inv, ret, res, got, gen, sv, lost]                           *)
(* id: identity of the sender, inv/ret: times, res: result code,           *)
(* got: entries found, gen: password handed out, sv: stored form of a new  *)
(* password, lost: it was never answered because the server was killed.    *)
(***************************************************************************)
EXTENDS LdapData

CONSTANTS Base, Admin, AnonOK, Known

D == INSTANCE Directory WITH Refusals <- 1..199

\* A request that was never answered may have been executed completely or not at all.
Unanswered(tree, e) ==
    {tree} \cup
    CASE e.op.k \in {"add", "delete", "modify", "rename"} -> { o.tree : o \in D!Write(tree, e.id, e.op) }
      [] e.op.k = "pw" /\ D!CanSetPw(tree, Known, e.id, e.op.target, e.op.old) ->
            {D!SetPw(tree, D!PwTarget(e.id, e.op.target), e.sv)}
      [] OTHER -> {}

\* The directories that request e may leave behind if it is executed on `tree`
\* and is answered the way it was; none if that answer is wrong there.
Steps(tree, e) ==
    CASE e.lost -> Unanswered(tree, e)
      [] e.op.k \in {"add", "delete", "modify", "rename"} ->
            { o.tree : o \in { x \in D!Write(tree, e.id, e.op) : e.res \in x.codes } }
      [] e.op.k = "bind" ->
            LET ok == D!BindOK(tree, Known, e.op.dn, e.op.pw, TRUE)
            IN  IF (ok /\ e.res = 0) \/ (~ok /\ e.res \in 1..199) THEN {tree} ELSE {}
      [] e.op.k = "pw" ->
            IF D!CanSetPw(tree, Known, e.id, e.op.target, e.op.old)
            THEN IF e.res = 0 /\ (e.op.new = "" <=> e.gen # "")
                 THEN {D!SetPw(tree, D!PwTarget(e.id, e.op.target), e.sv)}
                 ELSE {}
            ELSE IF e.res \in 1..199 THEN {tree} ELSE {}
      [] e.op.k = "search" ->
            LET want == IF D!CanSearch(e.id, TRUE) THEN D!Matches(tree, e.op.base, e.op.scope, e.op.filter) ELSE {}
                got == { e.got[i].dn : i \in DOMAIN e.got }
            IN  IF /\ D!CanSearch(e.id, TRUE) <=> e.res = 0
                   /\ Len(e.got) = Cardinality(got)
                   /\ got = want
                   /\ \A i \in DOMAIN e.got : e.got[i].attrs = Project(tree[e.got[i].dn], e.op.attrs)
                THEN {tree} ELSE {}

\* e may be the next one executed: nothing that is still to come was over before it began.
MayBeNext(e, left) == \A f \in left : f.ret > e.inv

RECURSIVE Explained(_, _, _)
Explained(tree, left, final) ==
    IF left = {} THEN tree = final
    ELSE \E e \in left :
            /\ MayBeNext(e, left)
            /\ \E t \in Steps(tree, e) : Explained(t, left \ {e}, final)
=============================================================================
