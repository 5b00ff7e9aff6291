------------------------------ MODULE NewUsers ------------------------------
(***************************************************************************)
(* Turning a list of users into directory records.                         *)
(*                                                                         *)
(* A line: [kind, name, uid, gid, cn, mails]                               *)
(*   kind   "ok", "bad" (malformed), "may" (left open: may be refused)     *)
(*   uid, gid   the stated number, or Auto                                 *)
(* A record: [name, uid, gid, cn, mails, pw]; pw: the password verifies.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Auto == -1

Bad(lines) == \E i \in DOMAIN lines : lines[i].kind = "bad"
MayRefuse(lines) == \E i \in DOMAIN lines : lines[i].kind # "ok"

\* What is wrong with the records made of a list.
WrongRecs(lines, recs) ==
    IF Len(recs) # Len(lines) THEN {"records"}
    ELSE   { "name" : i \in { x \in DOMAIN lines : recs[x].name # lines[x].name } }
      \cup { "cn" : i \in { x \in DOMAIN lines : recs[x].cn # lines[x].cn } }
      \cup { "mail" : i \in { x \in DOMAIN lines :
                 { recs[x].mails[k] : k \in DOMAIN recs[x].mails } # { lines[x].mails[k] : k \in DOMAIN lines[x].mails } } }
      \cup { "kept" : i \in { x \in DOMAIN lines : 
                 \/ lines[x].uid # Auto /\ recs[x].uid # lines[x].uid
                 \/ lines[x].gid # Auto /\ recs[x].gid # lines[x].gid } }
      \cup { "unique" : i \in { x \in DOMAIN lines : lines[x].uid = Auto /\
                 (recs[x].uid < 0 \/ \E y \in DOMAIN lines : y # x /\ recs[y].uid = recs[x].uid) } }
      \cup { "password" : i \in { x \in DOMAIN lines : ~recs[x].pw } }

\* The way numbers are given out: above every stated number.
Max(s) == CHOOSE x \in s : \A y \in s : y <= x
Stated(lines) == { lines[i].uid : i \in DOMAIN lines } \cup { lines[i].gid : i \in DOMAIN lines }

RECURSIVE Number(_, _, _)
Number(lines, top, recs) ==
    IF Len(recs) = Len(lines) THEN recs
    ELSE LET ln == lines[Len(recs) + 1]
             n == IF ln.uid = Auto \/ ln.gid = Auto THEN top + 1 ELSE top
         IN  Number(lines, n, Append(recs, [name |-> ln.name, cn |-> ln.cn, mails |-> ln.mails, pw |-> TRUE,
                                            uid |-> IF ln.uid = Auto THEN n ELSE ln.uid,
                                            gid |-> IF ln.gid = Auto THEN n ELSE ln.gid]))

Records(lines) == Number(lines, Max({1000} \cup Stated(lines)), << >>)
=============================================================================
