------------------------------ MODULE LdapData ------------------------------
(***************************************************************************)
(* Data and pure functions of the directory: names, values, entries,       *)
(* change lists and search filters.  Everything is already "abstract":     *)
(*                                                                         *)
(*  - a value is a record [c, s]: s is the exact spelling, c its case      *)
(*    folded form.  Two values are the same value iff their c agree; s is  *)
(*    what has to come back unchanged.                                     *)
(*  - an RDN is a (sorted) sequence of pairs <<type, folded value>>, a DN  *)
(*    is a sequence of RDNs, leaf first.  << >> is the empty DN and, as an *)
(*    identity, the anonymous user.                                        *)
(*  - the attributes of an entry are a function from folded attribute      *)
(*    types to non-empty sets of values.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == { s[i] : i \in DOMAIN s }

\* An empty JSON object or a record: both are functions from strings.
EmptyFcn == [x \in {} |-> {}]

-----------------------------------------------------------------------------
(* Names *)

Anonymous == << >>

Parent(d) == Tail(d)

IsAncestor(a, d) ==
    /\ Len(a) < Len(d)
    /\ SubSeq(d, Len(d) - Len(a) + 1, Len(d)) = a

IsBelowOrEqual(a, d) == a = d \/ IsAncestor(a, d)

RdnTypes(rdn) == { rdn[i][1] : i \in DOMAIN rdn }
RdnPairs(rdn) == { <<rdn[i][1], rdn[i][2]>> : i \in DOMAIN rdn }

InScope(scope, base, d) ==
    CASE scope = "base" -> d = base
      [] scope = "one"  -> Len(d) = Len(base) + 1 /\ IsAncestor(base, d)
      [] scope = "sub"  -> IsBelowOrEqual(base, d)

-----------------------------------------------------------------------------
(* Attributes *)

Folds(vs) == { v.c : v \in vs }

ValuesOf(attrs, t) == IF t \in DOMAIN attrs THEN attrs[t] ELSE {}

\* Replace the whole value set of one type; an empty set removes the type.
SetValues(attrs, t, vs) ==
    IF vs = {}
    THEN [x \in DOMAIN attrs \ {t} |-> attrs[x]]
    ELSE [x \in DOMAIN attrs \cup {t} |-> IF x = t THEN vs ELSE attrs[x]]

\* Add the values of the sequence vs one by one; a value that is already
\* present (in any spelling) is left alone.
RECURSIVE AddValues(_, _)
AddValues(cur, vs) ==
    IF vs = << >> THEN cur
    ELSE LET v == Head(vs)
         IN  AddValues(IF v.c \in Folds(cur) THEN cur ELSE cur \cup {v}, Tail(vs))

DelValues(cur, vs) ==
    IF vs = << >> THEN {} ELSE { v \in cur : v.c \notin Folds(Range(vs)) }

\* Would this change take away a value of the relative name?
HitsRDN(rdn, ch) ==
    \E p \in RdnPairs(rdn) :
        /\ p[1] = ch.t
        /\ CASE ch.k = "add"     -> FALSE
             [] ch.k = "replace" -> p[2] \notin Folds(Range(ch.vs))
             [] ch.k = "delete"  -> ch.vs = << >> \/ p[2] \in Folds(Range(ch.vs))

ApplyChange(attrs, ch) ==
    CASE ch.k = "add"     -> SetValues(attrs, ch.t, AddValues(ValuesOf(attrs, ch.t), ch.vs))
      [] ch.k = "replace" -> SetValues(attrs, ch.t, Range(ch.vs))
      [] ch.k = "delete"  -> SetValues(attrs, ch.t, DelValues(ValuesOf(attrs, ch.t), ch.vs))

\* The list of changes, in order, each to the result of the previous ones.
\* All or nothing: [ok |-> FALSE] as soon as one change hits the RDN.
RECURSIVE ApplyChanges(_, _, _)
ApplyChanges(attrs, rdn, chs) ==
    IF chs = << >> THEN [ok |-> TRUE, attrs |-> attrs]
    ELSE IF HitsRDN(rdn, Head(chs)) THEN [ok |-> FALSE, attrs |-> attrs]
    ELSE ApplyChanges(ApplyChange(attrs, Head(chs)), rdn, Tail(chs))

-----------------------------------------------------------------------------
(* Filters.  Strings are folded; TLC's Len and SubSeq work on strings.     *)

HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* Position after the first occurrence of p in s at or after position i, 0 if none.
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) ==
    IF i + Len(p) - 1 > Len(s) THEN 0
    ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i + Len(p)
    ELSE FindFrom(s, p, i + 1)

\* All inner parts in order, none overlapping; result is the next free position or 0.
RECURSIVE MatchInner(_, _, _)
MatchInner(s, parts, i) ==
    IF parts = << >> THEN i
    ELSE LET n == FindFrom(s, Head(parts), i)
         IN  IF n = 0 THEN 0 ELSE MatchInner(s, Tail(parts), n)

MatchSub(s, ini, anys, fin) ==
    /\ HasPrefix(s, ini)
    /\ LET n == MatchInner(s, anys, Len(ini) + 1)
       IN  /\ n # 0
           /\ Len(s) - Len(fin) + 1 >= n
           /\ SubSeq(s, Len(s) - Len(fin) + 1, Len(s)) = fin

RECURSIVE Eval(_, _)
Eval(f, attrs) ==
    CASE f.k = "eq"   -> f.v \in Folds(ValuesOf(attrs, f.t))
      [] f.k = "pres" -> f.t \in DOMAIN attrs
      [] f.k = "sub"  -> \E v \in ValuesOf(attrs, f.t) : MatchSub(v.c, f.i, f.a, f.f)
      [] f.k = "and"  -> \A i \in DOMAIN f.fs : Eval(f.fs[i], attrs)
      [] f.k = "or"   -> \E i \in DOMAIN f.fs : Eval(f.fs[i], attrs)
      [] f.k = "not"  -> ~Eval(f.fs[1], attrs)

\* Requested attributes: the empty request and "*" mean all of them.
Project(attrs, req) ==
    IF req = << >> \/ "*" \in Range(req) THEN attrs
    ELSE [t \in DOMAIN attrs \cap Range(req) |-> attrs[t]]

=============================================================================
