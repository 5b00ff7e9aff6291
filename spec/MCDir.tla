-------------------------------- MODULE MCDir --------------------------------
(***************************************************************************)
(* The directory server as a state machine, explored exhaustively for      *)
(* several alphabets of requests.  Connections, identities, the stored     *)
(* tree and the passwords are part of the state.                           *)
(*                                                                         *)
(* The properties below are stated without using the operators that define *)
(* the outcomes of requests in Directory.                                  *)
(*                                                                         *)
(* Export prints the alphabet and the initial directory: the conformance   *)
(* driver walks the real server through every (state, request) pair it can *)
(* reach with the same alphabet, and TraceDir judges every step.           *)
(***************************************************************************)
EXTENDS Directory, Json

CONSTANTS Alphabet,     \* the set of [conn, op]
          Users         \* DN -> clear text password, entries present initially (besides Base)

VARIABLES tree, sess, last

vars == <<tree, sess, last>>
View == <<tree, sess>>

V(s) == [c |-> s, s |-> s]
CN(n) == << <<"cn", n>> >>
B == << << <<"o", "base">> >> >>
AdminDN == <<CN("admin")>> \o B
UserDN == <<CN("user")>> \o B
OtherDN == <<CN("other")>> \o B
Codes == 1..80

\* A stored password is written "h:" followed by the clear text; a stored
\* clear text is itself.
Pws == {"pa", "pu", "po", "p1", "p2"}
Stored(p) == "h:" \o p
Known == [s \in { Stored(p) : p \in Pws } |-> { p \in Pws : Stored(p) = s }]

Entry0(d) ==
    IF d = B THEN [o |-> {V("base")}]
    ELSE IF d \in DOMAIN Users THEN [cn |-> {V(d[1][1][2])}, userpassword |-> {V(Stored(Users[d]))}]
    ELSE [cn |-> {V(d[1][1][2])}]

Conns == { a.conn : a \in Alphabet }

Init ==
    /\ tree = [d \in {B} \cup DOMAIN Users |-> Entry0(d)]
    /\ sess = [c \in Conns |-> IF c = "adm" THEN AdminDN ELSE Anonymous]
    /\ last = [conn |-> "none", op |-> [k |-> "none"], res |-> 0]

Outcomes(c, op) ==
    LET id == sess[c] IN
    CASE op.k \in {"add", "delete", "modify", "rename"} ->
            { [codes |-> o.codes, tree |-> o.tree, sess |-> sess] : o \in Write(tree, id, op) }
      [] op.k = "bind" ->
            LET ok == BindOK(tree, Known, op.dn, op.pw, TRUE)
            IN  { [codes |-> IF ok THEN {0} ELSE Codes, tree |-> tree,
                   sess |-> [sess EXCEPT ![c] = BindIdentity(ok, op.dn)]] }
      [] op.k = "oddbind" ->
            { [codes |-> Codes, tree |-> tree, sess |-> [sess EXCEPT ![c] = BindIdentity(FALSE, << >>)]] }
      [] op.k = "pw" ->
            IF CanSetPw(tree, Known, id, op.target, op.old)
            THEN { [codes |-> {0}, tree |-> SetPw(tree, PwTarget(id, op.target), V(Stored(op.new))), sess |-> sess] }
            ELSE { [codes |-> Codes, tree |-> tree, sess |-> sess] }
      [] op.k = "search" -> { [codes |-> {0}, tree |-> tree, sess |-> sess] }

Next ==
    \E a \in Alphabet : \E o \in Outcomes(a.conn, a.op) :
        /\ tree' = o.tree
        /\ sess' = o.sess
        /\ last' = [conn |-> a.conn, op |-> a.op, res |-> CHOOSE x \in o.codes : \A y \in o.codes : x <= y]

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Alphabets *)

Req(c, op) == [conn |-> c, op |-> op]
Add(d) == [k |-> "add", dn |-> d, attrs |-> [cn |-> {V(d[1][1][2])}]]
Del(d) == [k |-> "delete", dn |-> d]
Ren(d, n, b) == [k |-> "rename", dn |-> d, newrdn |-> <<[t |-> "cn", v |-> V(n)]>>, delold |-> b]
Chg(k, t, vs) == [k |-> k, t |-> t, vs |-> vs]
Mod(d, chs) == [k |-> "modify", dn |-> d, chs |-> chs]
Bind(d, p) == [k |-> "bind", dn |-> d, pw |-> p]
\* A bind of a kind that is not supported, or to something that is no name:
\* a failed bind, whatever password comes with it.
OddBind(how) == [k |-> "oddbind", how |-> how]
Pw(t, o, n) == [k |-> "pw", target |-> t, old |-> o, new |-> n]

RECURSIVE Below(_, _, _)
Below(d, names, n) ==
    IF n = 0 THEN {} ELSE LET kids == { <<CN(x)>> \o d : x \in names }
                          IN  kids \cup UNION { Below(k, names, n-1) : k \in kids }

Foreign == { <<CN("x")>>, <<CN("x"), << <<"xo", "base">> >> >>, <<CN("x"), CN("nowhere")>> \o B }

\* Trees of two levels; every request by the administrator.
TreeAlphabet(names, depth, mods) ==
    LET ds == Below(B, names, depth) IN
    { Req("adm", op) : op \in
        { Add(d) : d \in ds \cup Foreign } \cup
        { Del(d) : d \in ds \cup {B} \cup Foreign } \cup
        { Ren(d, n, b) : d \in ds, n \in names, b \in {TRUE, FALSE} } \cup { Ren(B, "x", TRUE) } \cup
        { Mod(d, <<Chg("replace", "m", <<V(v)>>)>>) : d \in ds, v \in mods } }

OneAdmin == [d \in {AdminDN} |-> "pa"]

TreeSmall == { a \in TreeAlphabet({"x", "y"}, 2, {}) : a.op.k # "rename" \/ a.op.delold }
TreeNarrow == TreeAlphabet({"x", "y"}, 1, {"v"})
TreeFull == TreeAlphabet({"x", "y"}, 2, {})

\* All change lists up to length two on one entry with a naming attribute and
\* another one.
Changes ==
    { Chg(k, "m", vs) : k \in {"add", "replace", "delete"}, vs \in {<<V("a")>>, <<V("b")>>, <<V("a"), V("b")>>} } \cup
    { Chg(k, "m", << >>) : k \in {"replace", "delete"} } \cup
    { Chg(k, "cn", vs) : k \in {"add", "replace", "delete"}, vs \in {<<V("x")>>, <<V("y")>>, <<V("x"), V("y")>>} } \cup
    { Chg("delete", "cn", << >>), Chg("replace", "cn", << >>) }
ModX == <<CN("x")>> \o B
ModAlphabet ==
    { Req("adm", Mod(ModX, <<c>>)) : c \in Changes } \cup
    { Req("adm", Mod(ModX, <<c, d>>)) : c, d \in Changes } \cup
    { Req("adm", Add(ModX)) }
ModLong ==
    ModAlphabet \cup { Req("adm", Mod(ModX, <<c, d, e>>)) : c, d, e \in { x \in Changes : x.t = "m" } }

\* Identities: three connections, right and wrong passwords, probes.
SessUsers == [d \in {AdminDN, UserDN} |-> IF d = AdminDN THEN "pa" ELSE "pu"]
Probe == <<CN("p")>> \o B
SessAlphabet ==
    { Req(c, op) : c \in {"c1", "c2", "c3"}, op \in
        { Bind(d, p) : d \in {AdminDN, UserDN}, p \in {"pa", "pu", ""} } \cup
        { Bind(<<CN("none")>> \o B, "pa"), Bind(<< >>, ""), Bind(<< >>, "pa") } \cup
        { OddBind(h) : h \in {"sasl", "version", "malformed"} } \cup
        { Add(Probe), Del(Probe) } }
SessLong ==
    SessAlphabet \cup
    { Req(c, op) : c \in {"c1", "c2", "c3"}, op \in
        { Mod(UserDN, <<Chg("replace", "m", <<V("a")>>)>>), Mod(UserDN, <<Chg("delete", "m", << >>)>>),
          Ren(Probe, "q", TRUE), Ren(<<CN("q")>> \o B, "p", TRUE) } }

\* Passwords: three users, all kinds of password changes and binds.
PwUsers == [d \in {AdminDN, UserDN, OtherDN} |-> IF d = AdminDN THEN "pa" ELSE IF d = UserDN THEN "pu" ELSE "po"]
PwAlphabet ==
    { Req("c1", op) : op \in
        { Bind(d, p) : d \in {AdminDN, UserDN}, p \in {"pa", "pu", "p1"} } \cup
        { Bind(<< >>, "") } \cup
        { Pw(t, o, n) : t \in {<< >>, UserDN, AdminDN}, o \in {"", "pu", "p1"}, n \in {"pu", "p1"} } \cup
        { Pw(OtherDN, "", "po"), Pw(<<CN("none")>> \o B, "", "p1") } }

\* Searches at every state of a small tree.
Eq(t, v) == [k |-> "eq", t |-> t, v |-> v]
Pres(t) == [k |-> "pres", t |-> t]
Sub(t, i, a, f) == [k |-> "sub", t |-> t, i |-> i, a |-> a, f |-> f]
Not(f) == [k |-> "not", fs |-> <<f>>]
Find(b, s, f, n) == [k |-> "search", base |-> b, scope |-> s, filter |-> f, attrs |-> << >>, limit |-> n]
Everything == [k |-> "or", fs |-> <<Pres("cn"), Pres("o")>>]
SearchAlphabet ==
    LET ds == Below(B, {"x", "y"}, 2) IN
    { Req("adm", Add(d)) : d \in ds } \cup { Req("adm", Del(d)) : d \in ds } \cup
    { Req("adm", Ren(d, "y", TRUE)) : d \in ds } \cup
    { Req("adm", Find(b, s, Everything, n)) : b \in ds \cup {B}, s \in {"base", "one", "sub"}, n \in {0, 1, 2} }

Atoms == { Eq("cn", "x"), Pres("m"), Pres("cn"), Eq("m", "ab"), Sub("m", "a", << >>, "b"), Sub("m", "", <<"b">>, ""), Sub("m", "a", <<"a">>, ""), Sub("m", "ab", << >>, "b"), Sub("m", "", <<"a", "a">>, "b") }
Bool(fs) == fs \cup { Not(f) : f \in fs } \cup
    { [k |-> k, fs |-> <<f, g>>] : k \in {"and", "or"}, f, g \in fs }
FilterAlphabet(fs) ==
    { Req("adm", op) : op \in
        {Add(ModX)} \cup { Mod(ModX, <<Chg("replace", "m", vs)>>) : vs \in {<< >>, <<V("ab")>>, <<V("abb")>>, <<V("aab"), V("ba")>>} } \cup
        { Find(B, "sub", f, 0) : f \in fs } }
FilterSmall == FilterAlphabet(Bool(Atoms))
FilterLong == FilterAlphabet(Bool({ Not(f) : f \in Atoms } \cup Atoms))

-----------------------------------------------------------------------------
(* Properties of the model *)

WellFormed == TreeOK(tree)

\* Every entry carries the values of its own relative name.
NameValues ==
    \A d \in DOMAIN tree : \A p \in RdnPairs(d[1]) : p[2] \in Folds(ValuesOf(tree[d], p[1]))

\* No attribute without values, no two values that differ only in case.
ValueSets ==
    \A d \in DOMAIN tree : \A t \in DOMAIN tree[d] :
        tree[d][t] # {} /\ Cardinality(tree[d][t]) = Cardinality(Folds(tree[d][t]))

\* A change needs the administrator, except for the own password.
OnlyAdmin ==
    [][ tree' # tree =>
          \/ sess[last'.conn] = AdminDN
          \/ /\ last'.op.k = "pw"
             /\ \A d \in DOMAIN tree : d # sess[last'.conn] => tree'[d] = tree[d]
             /\ \A t \in DOMAIN tree[sess[last'.conn]] :
                    t # PW => tree'[sess[last'.conn]][t] = tree[sess[last'.conn]][t] ]_vars

\* Only a bind changes an identity, only its own, and only to itself or nobody.
OwnIdentity ==
    [][ \A c \in Conns : sess'[c] # sess[c] =>
          /\ last'.op.k \in {"bind", "oddbind"} /\ last'.conn = c
          /\ sess'[c] # Anonymous => last'.op.k = "bind" /\ sess'[c] = last'.op.dn /\ last'.res = 0 ]_vars
FailedBindIsAnonymous ==
    [][ last'.op.k \in {"bind", "oddbind"} /\ last'.res # 0 => sess'[last'.conn] = Anonymous ]_vars

\* An identity is only reached with the password the entry has at that time.
Authenticated ==
    [][ \A c \in Conns : sess'[c] # sess[c] /\ sess'[c] # Anonymous =>
          /\ sess'[c] \in DOMAIN tree
          /\ V(Stored(last'.op.pw)) \in ValuesOf(tree[sess'[c]], PW) ]_vars

\* An answer other than success means that nothing happened.
ErrorsChangeNothing ==
    [][ last'.res # 0 => tree' = tree ]_vars

\* At most one entry appears and at most one disappears per request, and all others are untouched.
OneEntry ==
    [][ LET new == DOMAIN tree' \ DOMAIN tree
            old == DOMAIN tree \ DOMAIN tree'
            both == DOMAIN tree \cap DOMAIN tree'
        IN  /\ Cardinality(new) <= 1 /\ Cardinality(old) <= 1
            /\ new # {} => \A d \in both : tree'[d] = tree[d]
            /\ Cardinality({ d \in both : tree'[d] # tree[d] }) <= 1 ]_vars

\* Only leaves disappear, and an entry only appears below an existing parent.
LeafOnly ==
    [][ \A d \in DOMAIN tree \ DOMAIN tree' :
            d # B /\ \A x \in DOMAIN tree : ~IsAncestor(d, x) ]_vars
ParentFirst ==
    [][ \A d \in DOMAIN tree' \ DOMAIN tree : Parent(d) \in DOMAIN tree ]_vars

\* A rename keeps all values except those of the old relative name.
RenameKeeps ==
    [][ last'.op.k = "rename" /\ last'.res = 0 =>
          LET d == last'.op.dn
              nd == <<RdnOf(last'.op.newrdn)>> \o Parent(d)
          IN  /\ d \notin DOMAIN tree' /\ nd \in DOMAIN tree'
              /\ \A t \in DOMAIN tree[d] : \A v \in tree[d][t] :
                    v \in ValuesOf(tree'[nd], t) \/ (last'.op.delold /\ <<t, v.c>> \in RdnPairs(d[1])) ]_vars

Export ==
    \/ TLCGet("level") # 1
    \/ PrintT("WALK " \o ToJson(
         [ops  |-> Alphabet,
          init |-> { [dn |-> d, attrs |-> tree[d]] : d \in DOMAIN tree },
          base |-> B, admin |-> AdminDN, anon |-> AnonOK,
          known |-> Known,
          sess |-> sess,
          pws |-> { [dn |-> d, pw |-> Users[d]] : d \in DOMAIN Users }]))
=============================================================================
