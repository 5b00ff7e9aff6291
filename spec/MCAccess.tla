------------------------------ MODULE MCAccess ------------------------------
(***************************************************************************)
(* A server deciding as the implementation does (at the bind and again at  *)
(* each search), with the client's knowledge of what happened kept apart.  *)
(* Fault selects a defect that the judgement of Access has to notice.      *)
(* The alphabet is exported: the driver puts every connection kind through *)
(* all sequences of these requests.                                        *)
(***************************************************************************)
EXTENDS Access, Naturals, Sequences, TLC, Json

CONSTANTS Fault, Steps

VARIABLES allow, loop, id, sess, n, wrong

vars == <<allow, loop, id, sess, n, wrong>>

ASSUME PrintT("WALK " \o ToJson([binds |-> Binds, searches |-> Searches]))

Init == allow \in BOOLEAN /\ loop \in BOOLEAN /\ id = "none" /\ sess = "none" /\ n = 0 /\ wrong = {}

Local == loop \/ Fault = "anyaddr"

Accepts(k) ==
    \/ k = "good"
    \/ k = "anon" /\ allow /\ Local
    \/ k = "unauth" /\ Fault = "unauth"
    \/ k = "pwonly" /\ Fault = "pwonly" /\ allow

Bind(k) ==
    LET a == Accepts(k)
    IN  /\ id' = IF a THEN (IF k = "anon" THEN "none" ELSE "user")
                 ELSE IF Fault = "stale" THEN id ELSE "none"
        /\ sess' = AfterBind(k, a)
        /\ wrong' = wrong \cup BindWrong(k, allow, loop, a)

Search(k) ==
    LET may == id = "user" \/ (allow /\ Local) \/ Fault = "unchecked" \/ (Fault = "resume" /\ k = "resume")
    IN  /\ \E found \in (IF may THEN (IF Finds(k) THEN {1, 2} ELSE {0, 1}) ELSE {0}) :
              wrong' = wrong \cup SearchWrong(k, sess, allow, loop, found)
        /\ UNCHANGED <<id, sess>>

Next ==
    /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<allow, loop>>
    /\ (\E k \in Binds : Bind(k)) \/ (\E k \in Searches : Search(k))

Spec == Init /\ [][Next]_vars

Right == wrong = {}
=============================================================================
