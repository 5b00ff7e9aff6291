------------------------------ MODULE Template ------------------------------
(***************************************************************************)
(* LDIF templates: including files, numbering, long lines.                 *)
(*                                                                         *)
(* A path is a sequence of segments from the root of the file system.      *)
(* A template is a sequence of items, each of which yields one value:      *)
(*   [k = "auto"]            the next number                               *)
(*   [k = "autoset", n]      numbering goes on from n                      *)
(*   [k = "file", abs, segs] the content of a file                         *)
(*   [k = "text", v]         text (of any length), v its digest            *)
(*   [k = "setvar", v], [k = "var"]  the company used from here on         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* The meaning of a path.
RECURSIVE Clean(_, _)
Clean(at, segs) ==
    IF segs = << >> THEN at
    ELSE LET s == Head(segs)
         IN  Clean(IF s \in {"", "."} THEN at
                   ELSE IF s = ".." THEN (IF at = << >> THEN at ELSE SubSeq(at, 1, Len(at) - 1))
                   ELSE Append(at, s), Tail(segs))

Target(base, it) == Clean(IF it.abs THEN << >> ELSE base, it.segs)

Inside(base, p) == Len(p) > Len(base) /\ SubSeq(p, 1, Len(base)) = base

\* Does the operating system find its way?  (A folder left by ".." has to exist.)
RECURSIVE Passable(_, _, _)
Passable(dirs, at, segs) ==
    IF Len(segs) <= 1 THEN at \in dirs
    ELSE LET n == Clean(at, <<Head(segs)>>) IN n \in dirs /\ Passable(dirs, n, Tail(segs))

\* files: function from paths to [size, sum].
Includable(base, files, limit, it) ==
    LET p == Target(base, it)
    IN  Inside(base, p) /\ p \in DOMAIN files /\ files[p].size <= limit

\* A template with a forbidden include does not load.
MustFail(base, files, limit, items) ==
    \E i \in DOMAIN items : items[i].k = "file" /\ ~Includable(base, files, limit, items[i])

MayFail(base, files, dirs, limit, items) ==
    \/ MustFail(base, files, limit, items)
    \/ \E i \in DOMAIN items : items[i].k = "file" /\ ~Passable(dirs, IF items[i].abs THEN << >> ELSE base, items[i].segs)

\* The values of a loaded template.  vals[i] belongs to items[i]; numbers are
\* numbers, everything else is a digest.
Before(items, i, ks) == { j \in 1..(i - 1) : items[j].k \in ks }
Last(s) == CHOOSE x \in s : \A y \in s : y <= x

Wrong(base, files, items, vals, company) ==
    { "number" : i \in { x \in DOMAIN items :
          \/ items[x].k = "autoset" /\ vals[x] # items[x].n
          \/ items[x].k = "auto" /\ Before(items, x, {"auto", "autoset"}) # {}
             /\ vals[x] # vals[Last(Before(items, x, {"auto", "autoset"}))] + 1 } }
    \cup { "file" : i \in { x \in DOMAIN items : items[x].k = "file" /\ Target(base, items[x]) \in DOMAIN files
                                                  /\ vals[x] # files[Target(base, items[x])].sum } }
    \cup { "text" : i \in { x \in DOMAIN items : items[x].k = "text" /\ vals[x] # items[x].v } }
    \cup { "text" : i \in { x \in DOMAIN items :
          /\ items[x].k = "var"
          /\ vals[x] # (LET s == Before(items, x, {"setvar"}) IN IF s = {} THEN company ELSE items[Last(s)].v) } }
=============================================================================
