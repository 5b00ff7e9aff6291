----------------------------- MODULE Resources ------------------------------
(***************************************************************************)
(* What a server may hold on to.  The monitor compares measurements        *)
(*   [files, tasks, memory, size]                                          *)
(* (open files and sockets, running tasks, MB of memory in use, KB of the  *)
(* database file) with those made before the first client came.            *)
(*   open   connections the clients keep open                              *)
(* A few files and tasks may be needed for other reasons, thus Slack; each *)
(* kind of use is repeated more often than that.                           *)
(***************************************************************************)
EXTENDS Naturals

CONSTANTS Slack, MemorySlack, SizeFactor, SizeSlack

\* While unfinished searches may still be kept for their clients.
WrongNow(base, open, v) == IF v.files > base.files + open + Slack THEN {"files"} ELSE {}

\* After the time for which they are kept.
WrongEnd(base, open, v) ==
    WrongNow(base, open, v)
    \cup (IF v.tasks > base.tasks + open + Slack THEN {"tasks"} ELSE {})
    \cup (IF v.memory > base.memory + MemorySlack THEN {"memory"} ELSE {})

\* The database after few and after many changes that add nothing.
WrongSize(few, many) == IF many > SizeFactor * few + SizeSlack THEN {"size"} ELSE {}
=============================================================================
