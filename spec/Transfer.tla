------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* Loading a file into the database and exporting the directory.           *)
(*                                                                         *)
(* A file is a sequence of records [k, dn, attrs]: k = "entry" for a plain *)
(* record, "add" for the same written as a change, "other" for any other   *)
(* change.  The tool adds one entry after the other and stops with an      *)
(* error at the first one that cannot be added; it never passes over one.  *)
(***************************************************************************)
EXTENDS LdapData

LoadOK(base, tree, r) ==
    /\ r.k # "other"
    /\ r.dn \notin DOMAIN tree
    /\ r.dn = base \/ (IsAncestor(base, r.dn) /\ Parent(r.dn) \in DOMAIN tree)

PutEntry(tree, d, attrs) == [x \in DOMAIN tree \cup {d} |-> IF x = d THEN attrs ELSE tree[x]]

\* [ok, tree]: the result of loading all, or of what comes before the first failure.
RECURSIVE LoadAll(_, _, _)
LoadAll(base, tree, recs) ==
    IF recs = << >> THEN [ok |-> TRUE, tree |-> tree]
    ELSE LET r == Head(recs)
         IN  IF LoadOK(base, tree, r) THEN LoadAll(base, PutEntry(tree, r.dn, r.attrs), Tail(recs))
             ELSE [ok |-> FALSE, tree |-> tree]

\* All states on the way.
Prefixes(base, tree, recs) == { LoadAll(base, tree, SubSeq(recs, 1, n)).tree : n \in 0..Len(recs) }

\* Judgement of one load: wf - the file is syntactically right; code - exit
\* code (0 success, 1 reported failure, anything else a crash); post - the
\* directory afterwards.  Changes ("add") may be loaded or refused.
LoadWrong(base, tree, recs, wf, code, said, post) ==
    LET all == LoadAll(base, tree, recs)
        changes == \E i \in DOMAIN recs : recs[i].k # "entry"
    IN  (IF code \notin {0, 1} THEN {"crash"} ELSE {})
        \cup (IF code = 0 /\ (~wf \/ ~all.ok) THEN {"silent"} ELSE {})
        \cup (IF code = 0 /\ wf /\ all.ok /\ post # all.tree THEN {"load"} ELSE {})
        \cup (IF code # 0 /\ wf /\ all.ok /\ ~changes THEN {"refused"} ELSE {})
        \cup (IF code # 0 /\ ~said THEN {"unsaid"} ELSE {})
        \cup (IF code # 0 /\ post \notin Prefixes(base, tree, recs) THEN {"partial"} ELSE {})

\* Judgement of one export: out is the sequence of exported entries.
ExportWrong(base, tree, out, code) ==
    IF base \notin DOMAIN tree THEN (IF code \notin {0, 1} THEN {"crash"} ELSE {})
    ELSE LET dns == { out[i].dn : i \in DOMAIN out }
         IN  (IF code # 0 THEN {"export"} ELSE {})
             \cup (IF Len(out) # Cardinality(dns) \/ dns # DOMAIN tree THEN {"entries"} ELSE {})
             \cup (IF \E i \in DOMAIN out : out[i].dn \in DOMAIN tree /\ out[i].attrs # tree[out[i].dn] THEN {"values"} ELSE {})
             \cup (IF \E i, j \in DOMAIN out : i < j /\ IsAncestor(out[j].dn, out[i].dn) THEN {"order"} ELSE {})
=============================================================================
