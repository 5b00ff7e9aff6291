----------------------------- MODULE MCNewUsers -----------------------------
(***************************************************************************)
(* All lists of up to MaxLen lines with stated and automatic numbers.      *)
(***************************************************************************)
EXTENDS NewUsers, TLC, Json

CONSTANTS MaxLen, Fault

VARIABLE lines

Uids == {Auto, 0, 7, 1001, 1002}
Gids == {Auto, 1001}

Line(u, g) == [kind |-> "ok", name |-> "n", cn |-> "c", mails |-> << >>, uid |-> u, gid |-> g]

Init == lines = << >>
Next == Len(lines) < MaxLen /\ \E u \in Uids, g \in Gids : lines' = Append(lines, Line(u, g))
Spec == Init /\ [][Next]_lines

\* Ways to get it wrong.
Top == CASE Fault = "low" -> 1000
         [] Fault = "first" -> (IF lines = << >> THEN 1000 ELSE Max({1000, lines[1].uid, lines[1].gid}))
         [] OTHER -> Max({1000} \cup Stated(lines))

Seen == IF Fault = "zero" THEN [i \in DOMAIN lines |-> IF lines[i].uid = 0 THEN [lines[i] EXCEPT !.uid = Auto] ELSE lines[i]]
        ELSE lines

Out == LET r == Number(Seen, Top, << >>)
       IN  IF Fault = "drop" /\ r # << >> THEN Tail(r) ELSE r

Right == WrongRecs(lines, Out) = {}

\* Everything that is to be tried on the real tool.
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN << >> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
Exported == IF Fault # "none" THEN TRUE
            ELSE PrintT("WALK " \o ToJson([uids |-> SetToSeq(Uids), gids |-> SetToSeq(Gids), len |-> MaxLen]))
ASSUME Exported
=============================================================================
