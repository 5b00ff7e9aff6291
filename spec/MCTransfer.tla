----------------------------- MODULE MCTransfer -----------------------------
(***************************************************************************)
(* All files of up to Max records over a few names, loaded into an empty   *)
(* and into an existing directory by a loader that works as the real one   *)
(* (or has one of the defects named by Fault), and exported again by a     *)
(* traversal that lists the children of an entry before descending.        *)
(* All files are exported for replay in the real commands.                 *)
(***************************************************************************)
EXTENDS Transfer, Json

CONSTANTS Fault, Max

B == << << <<"o", "b">> >> >>
A == << << <<"cn", "a">> >> >> \o B
C == << << <<"cn", "c">> >> >> \o B
AA == << << <<"cn", "a">> >> >> \o A
Out == << << <<"cn", "a">> >> >>
Names == {B, A, C, AA, Out}

At == [cn |-> {[c |-> "v", s |-> "v"]}]
Recs == { [k |-> "entry", dn |-> d, attrs |-> At] : d \in Names }
         \cup { [k |-> k, dn |-> A, attrs |-> At] : k \in {"add", "other"} }
Files == UNION { [1..n -> Recs] : n \in 0..Max }

Starts == { EmptyFcn, PutEntry(EmptyFcn, B, At), PutEntry(PutEntry(EmptyFcn, B, At), A, At) }

ASSUME PrintT("WALK " \o ToJson([base |-> B, attrs |-> At,
            files |-> [i \in 1..1 |-> { [j \in DOMAIN f |-> [k |-> f[j].k, dn |-> f[j].dn]] : f \in Files }],
            starts |-> { {<< >>} \cup DOMAIN s : s \in Starts }]))

\* The defective loaders.
RECURSIVE Skip(_, _)
Skip(tree, recs) ==
    IF recs = << >> THEN tree
    ELSE Skip(IF LoadOK(B, tree, Head(recs)) THEN PutEntry(tree, Head(recs).dn, Head(recs).attrs) ELSE tree, Tail(recs))

Loader(tree, recs) ==
    LET r == LoadAll(B, tree, recs)
    IN  CASE Fault = "skip" -> [code |-> 0, tree |-> Skip(tree, recs)]
          [] Fault = "changes" -> LET plain == SelectSeq(recs, LAMBDA x : x.k = "entry")
                                      p == LoadAll(B, tree, plain)
                                  IN  [code |-> IF p.ok THEN 0 ELSE 1, tree |-> p.tree]
          [] Fault = "overwrite" -> LET s == [x \in { recs[i].dn : i \in DOMAIN recs } |-> At] IN [code |-> 0, tree |-> s]
          [] OTHER -> [code |-> IF r.ok THEN 0 ELSE 1, tree |-> r.tree]

Kids(tree, d) == { x \in DOMAIN tree : Len(x) = Len(d) + 1 /\ IsAncestor(d, x) }

RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN << >> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SeqOf(s \ {x})

RECURSIVE Subtree(_, _), Each(_, _)
Each(tree, ks) == IF ks = << >> THEN << >> ELSE Subtree(tree, Head(ks)) \o Each(tree, Tail(ks))
Subtree(tree, d) ==
    LET ks == SeqOf(Kids(tree, d))
    IN  IF Fault = "deep" THEN ks ELSE ks \o Each(tree, ks)

Exporter(tree) ==
    IF B \notin DOMAIN tree THEN << >>
    ELSE LET ds == IF Fault = "behind" THEN Subtree(tree, B) \o <<B>> ELSE <<B>> \o Subtree(tree, B)
         IN  [i \in DOMAIN ds |-> [k |-> "entry", dn |-> ds[i], attrs |-> tree[ds[i]]]]

VARIABLES tree, file, wrong
vars == <<tree, file, wrong>>

Init == tree \in Starts /\ file \in Files /\ wrong = {}

Next ==
    LET r == Loader(tree, file)
        out == Exporter(r.tree)
        again == LoadAll(B, EmptyFcn, out)
    IN  /\ file # << >>
        /\ wrong' = LoadWrong(B, tree, file, TRUE, r.code, TRUE, r.tree)
                    \cup ExportWrong(B, r.tree, out, 0)
                    \cup (IF B \in DOMAIN r.tree /\ (~again.ok \/ again.tree # r.tree) THEN {"again"} ELSE {})
        /\ tree' = r.tree /\ file' = << >>

Spec == Init /\ [][Next]_vars

Right == wrong = {}
=============================================================================
