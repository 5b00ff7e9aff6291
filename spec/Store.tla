-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* What is on the disk.  A store is a file of slots; a write of a slot is  *)
(* pending until the next synchronisation, and any part of the pending     *)
(* writes may survive a power failure.  Slots "m0" and "m1" hold the two   *)
(* roots, the others hold pages; the root with the larger transaction      *)
(* number of those that can be read is the valid one.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Pages

Roots == {"m0", "m1"}
Slots == Roots \cup Pages
Garbage == [tx |-> -1, at |-> << >>, v |-> -1]

Put(disk, w) == [disk EXCEPT ![w.slot] = w.val]

RECURSIVE PutAll(_, _)
PutAll(disk, ws) == IF ws = << >> THEN disk ELSE PutAll(Put(disk, Head(ws)), Tail(ws))

\* All the disks that a failure may leave: any of the pending writes are
\* missing, and the last of those that are not may be torn.
SubsetsOf(ws) == { SelectSeq([i \in DOMAIN ws |-> [w |-> ws[i], i |-> i]], LAMBDA x : x.i \in S) : S \in SUBSET DOMAIN ws }
Torn(w) == [w EXCEPT !.val = Garbage]
After(disk, ws) ==
    UNION { LET sel == [i \in DOMAIN s |-> s[i].w]
            IN  {PutAll(disk, sel)} \cup
                (IF sel = << >> THEN {} ELSE {PutAll(disk, [sel EXCEPT ![Len(sel)] = Torn(@)])})
            : s \in SubsetsOf(ws) }

Root(disk) == IF disk["m0"].tx > disk["m1"].tx THEN disk["m0"] ELSE disk["m1"]

\* The content: the versions found in the pages the root refers to.
Content(disk) == [i \in DOMAIN Root(disk).at |-> disk[Root(disk).at[i]].v]
=============================================================================
