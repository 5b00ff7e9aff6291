------------------------------ MODULE MCLinear ------------------------------
(***************************************************************************)
(* The server with several clients, on the level of transactions of the    *)
(* store: a request is received, executed by transactions, and answered.   *)
(* Every complete history has to be explained by Linear.                   *)
(*                                                                         *)
(* Fault: "none"; "split": a modify reads the entry in one transaction and *)
(* writes it in another; "check": an add or rename looks for the name in   *)
(* one transaction and writes in another; "torn": a search lists the names *)
(* in one transaction and reads the entries in another; "early": a write   *)
(* is answered before its transaction; "old": a bind is decided on what    *)
(* was stored when the connection was opened; "halves": a rename adds the  *)
(* new name in one transaction and drops the old one in another.           *)
(*                                                                         *)
(* With MayDie the server can be killed at any moment: what is under way   *)
(* then is never answered.                                                 *)
(***************************************************************************)
EXTENDS LdapData

CONSTANTS Fault, Clients, MaxOps, MayDie

VARIABLES tree, start, pc, cur, snap, clock, hist

vars == <<tree, start, pc, cur, snap, clock, hist>>

V(s) == [c |-> s, s |-> s]
MBase == << <<<<"o", "b">>>> >>
N(n) == <<<<<<"cn", n>>>>>> \o MBase
MAdmin == N("adm")

L == INSTANCE Linear WITH Base <- MBase, Admin <- MAdmin, AnonOK <- FALSE,
        Known <- [s \in {"p", "q"} |-> {s}]
D == INSTANCE Directory WITH Base <- MBase, Admin <- MAdmin, AnonOK <- FALSE, Refusals <- {53}

At(n) == [t \in {"cn"} |-> {V(n)}]

First == [d \in {MBase, MAdmin, N("x")} |->
            IF d = MBase THEN [t \in {"o"} |-> {V("b")}]
            ELSE IF d = MAdmin THEN [t \in {"cn", "userpassword"} |-> IF t = "cn" THEN {V("adm")} ELSE {V("p")}]
            ELSE At("x")]

Ch(k, v) == <<[k |-> k, t |-> "d", vs |-> <<V(v)>>]>>

Requests == {
    [k |-> "add", dn |-> N("y"), attrs |-> At("y")],
    [k |-> "delete", dn |-> N("x")],
    [k |-> "rename", dn |-> N("x"), newrdn |-> <<[t |-> "cn", v |-> V("y")]>>, delold |-> TRUE],
    [k |-> "modify", dn |-> N("x"), chs |-> Ch("add", "1")],
    [k |-> "modify", dn |-> N("x"), chs |-> Ch("add", "2")],
    [k |-> "search", base |-> MBase, scope |-> "one", filter |-> [k |-> "pres", t |-> "cn"], attrs |-> <<"cn", "d">>],
    [k |-> "pw", target |-> MAdmin, old |-> "", new |-> "q"],
    [k |-> "bind", dn |-> MAdmin, pw |-> "p"]
    }

NoOp == [k |-> "none"]

Init ==
    /\ tree = First /\ start = First
    /\ pc = [c \in Clients |-> "idle"]
    /\ cur = [c \in Clients |-> NoOp]
    /\ snap = [c \in Clients |-> First]
    /\ clock = 0
    /\ hist = {}

Found(names, t, op) ==
    { [dn |-> d, attrs |-> Project(t[d], op.attrs)] : d \in names \cap DOMAIN t }

SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S

Result(base, t, op) ==       \* decided on base, applied to t
    CASE op.k \in {"add", "delete", "modify", "rename"} ->
            LET o == CHOOSE x \in D!Write(base, MAdmin, op) : 0 \in x.codes \/ \A y \in D!Write(base, MAdmin, op) : 0 \notin y.codes
                code == CHOOSE c \in o.codes : TRUE
                gone == DOMAIN base \ DOMAIN o.tree
                set == { d \in DOMAIN o.tree : d \notin DOMAIN base \/ base[d] # o.tree[d] }
            IN  [res |-> code, got |-> << >>,
                 tree |-> [d \in (DOMAIN t \ gone) \cup set |-> IF d \in set THEN o.tree[d] ELSE t[d]]]
      [] op.k = "bind" -> [res |-> IF D!BindOK(base, [s \in {"p", "q"} |-> {s}], op.dn, op.pw, TRUE) THEN 0 ELSE 49, got |-> << >>, tree |-> t]
      [] op.k = "pw" -> [res |-> 0, got |-> << >>, tree |-> D!SetPw(t, op.target, V(op.new))]
      [] op.k = "search" ->
            [res |-> 0, tree |-> t,
             got |-> SeqOf(Found(D!Matches(base, op.base, op.scope, op.filter), t, op))]

Send(c, op) ==
    /\ pc[c] = "idle"
    /\ Cardinality(hist) + Cardinality({ x \in Clients : pc[x] # "idle" }) < MaxOps
    /\ cur' = [cur EXCEPT ![c] = [id |-> MAdmin, op |-> op, inv |-> clock, ret |-> -1, res |-> -1, got |-> << >>, gen |-> "",
                                  lost |-> FALSE, sv |-> IF op.k = "pw" THEN V(op.new) ELSE V("")]]
    /\ pc' = [pc EXCEPT ![c] = "sent"]
    /\ clock' = clock + 1
    /\ UNCHANGED <<tree, start, snap, hist>>

Splits(op) ==
    \/ Fault = "split" /\ op.k = "modify"
    \/ Fault = "check" /\ op.k \in {"add", "rename"}
    \/ Fault = "torn" /\ op.k = "search"
    \/ Fault = "halves" /\ op.k = "rename"

\* First of two transactions.
Look(c) ==
    /\ pc[c] = "sent" /\ Splits(cur[c].op)
    /\ snap' = [snap EXCEPT ![c] = tree]
    /\ pc' = [pc EXCEPT ![c] = "looked"]
    /\ tree' = IF Fault = "halves"
               THEN LET t == Result(tree, tree, cur[c].op).tree
                    IN  [d \in DOMAIN t \cup DOMAIN tree |-> IF d \in DOMAIN t THEN t[d] ELSE tree[d]]
               ELSE tree
    /\ UNCHANGED <<start, cur, clock, hist>>

Transact(c) ==
    /\ pc[c] = "looked" \/ (pc[c] = "sent" /\ ~Splits(cur[c].op))
    /\ LET base == IF pc[c] = "looked" THEN snap[c]
                   ELSE IF Fault = "old" /\ cur[c].op.k = "bind" THEN start
                   ELSE tree
           r == Result(base, tree, cur[c].op)
       IN  /\ tree' = r.tree
           /\ cur' = [cur EXCEPT ![c] = [@ EXCEPT !.res = r.res, !.got = r.got]]
    /\ pc' = [pc EXCEPT ![c] = "done"]
    /\ UNCHANGED <<start, snap, clock, hist>>

Reply(c) ==
    /\ pc[c] = "done"
    /\ hist' = hist \cup {[cur[c] EXCEPT !.ret = clock]}
    /\ clock' = clock + 1
    /\ pc' = [pc EXCEPT ![c] = "idle"]
    /\ cur' = [cur EXCEPT ![c] = NoOp]
    /\ UNCHANGED <<tree, start, snap>>

\* Answered at once, executed later ("early"): the request is decided on the
\* present directory, its effect comes after the answer.
ReplyEarly(c) ==
    /\ Fault = "early" /\ pc[c] = "sent" /\ cur[c].op.k = "modify"
    /\ hist' = hist \cup {[cur[c] EXCEPT !.ret = clock, !.res = Result(tree, tree, cur[c].op).res]}
    /\ clock' = clock + 1
    /\ pc' = [pc EXCEPT ![c] = "late"]
    /\ UNCHANGED <<tree, start, cur, snap>>

Late(c) ==
    /\ pc[c] = "late"
    /\ tree' = Result(tree, tree, cur[c].op).tree
    /\ pc' = [pc EXCEPT ![c] = "idle"]
    /\ cur' = [cur EXCEPT ![c] = NoOp]
    /\ UNCHANGED <<start, snap, clock, hist>>

\* The end of the process, and a new one on the same store.
Die ==
    /\ MayDie /\ \E c \in Clients : pc[c] # "idle"
    /\ \A e \in hist : ~e.lost
    /\ hist' = hist \cup { [cur[c] EXCEPT !.lost = TRUE, !.ret = 1000, !.res = -1] : c \in { x \in Clients : pc[x] \in {"sent", "looked", "done"} } }
    /\ pc' = [c \in Clients |-> "dead"]
    /\ UNCHANGED <<tree, start, cur, snap, clock>>

Next ==
    Die \/ \E c \in Clients :
        \/ \E op \in Requests : Send(c, op)
        \/ Look(c) \/ Transact(c) \/ Reply(c) \/ ReplyEarly(c) \/ Late(c)

Spec == Init /\ [][Next]_vars

Quiet == (\A c \in Clients : pc[c] = "idle") \/ (\A c \in Clients : pc[c] = "dead")

Linearizable == Quiet => L!Explained(start, hist, tree)

TreeOK == D!TreeOK(tree)
=============================================================================
