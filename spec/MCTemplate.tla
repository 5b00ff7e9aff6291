----------------------------- MODULE MCTemplate -----------------------------
(***************************************************************************)
(* All paths of up to Max folders over a few names, relative and absolute, *)
(* for a template folder d with a neighbour d2 whose name begins alike.    *)
(* The decision of the code - lexical cleaning, then comparison of the     *)
(* path text with the folder text and a slash - has to agree with Inside;  *)
(* Fault replaces it by a wrong one.  All paths are exported for replay.   *)
(***************************************************************************)
EXTENDS Template, TLC, Json

CONSTANTS Fault, Max

Names == {"..", ".", "a", "d", "d2"}
Root == <<"r">>
BaseDir == <<"r", "d">>

Segs == UNION { [1..n -> Names] : n \in 0..Max }
Items == { [k |-> "file", abs |-> FALSE, segs |-> Append(s, "f")] : s \in Segs }
         \cup { [k |-> "file", abs |-> TRUE, segs |-> <<"r">> \o Append(s, "f")] : s \in Segs }

ASSUME PrintT("WALK " \o ToJson([items |-> Items, root |-> Root, base |-> BaseDir]))

RECURSIVE Text(_)
Text(p) == IF p = << >> THEN "" ELSE "/" \o Head(p) \o Text(Tail(p))

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Permits(it) ==
    LET p == IF Fault = "noclean" THEN (IF it.abs THEN << >> ELSE BaseDir) \o it.segs ELSE Target(BaseDir, it)
    IN  CASE Fault = "nosep" -> Prefix(Text(BaseDir), Text(p))
          [] Fault = "relative" -> ~it.abs \/ Prefix(Text(BaseDir) \o "/", Text(p))
          [] Fault = "dotdot" -> ".." \notin { it.segs[i] : i \in DOMAIN it.segs } \/ Prefix(Text(BaseDir) \o "/", Text(p))
          [] OTHER -> Prefix(Text(BaseDir) \o "/", Text(p))

VARIABLES item, opened
Init == item \in Items /\ opened = FALSE
Next == ~opened /\ Permits(item) /\ opened' = TRUE /\ UNCHANGED item
Spec == Init /\ [][Next]_<<item, opened>>

Contained == opened => Inside(BaseDir, Target(BaseDir, item))
Reachable == Inside(BaseDir, Target(BaseDir, item)) => Permits(item)
=============================================================================
