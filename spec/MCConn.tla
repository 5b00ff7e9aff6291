------------------------------- MODULE MCConn -------------------------------
(***************************************************************************)
(* A server connection loop with a pipelining client.  The client's view   *)
(* is watched by the monitor of ServerConn.  Fault selects a defect of the *)
(* loop; the monitor has to notice each of them and to accept the correct  *)
(* loop (Fault = "none").                                                  *)
(***************************************************************************)
EXTENDS ServerConn, TLC

CONSTANTS MaxReqs, MaxEntries, Fault

VARIABLES
    inq,      \* requests sent and not yet read by the server
    cur,      \* requests in the works; a correct loop has at most one
    left,     \* entries the current search still delivers
    wire,     \* messages on their way to the client
    up,       \* the server has not ended the connection
    nsent, pending, broken

vars == <<inq, cur, left, wire, up, nsent, pending, broken>>

Kinds == {"search", "bind", "delete", "extended", "unbind", "other"}
Requests == [id : {nsent + 1}, kind : Kinds, ok : BOOLEAN]

Init == inq = << >> /\ cur = << >> /\ left = 0 /\ wire = << >> /\ up = TRUE /\ nsent = 0 /\ pending = << >> /\ broken = {}

Send ==
    /\ nsent < MaxReqs /\ up
    /\ \E r \in Requests :
          /\ (r.kind = "other" => ~r.ok) /\ (r.kind = "unbind" => r.ok)
          /\ inq' = Append(inq, r) /\ pending' = Append(pending, r)
    /\ nsent' = nsent + 1
    /\ UNCHANGED <<cur, left, wire, up, broken>>

Take ==
    /\ up /\ inq # << >> /\ cur = << >>
    /\ IF Fault = "overlap" /\ Len(inq) > 1
       THEN cur' = SubSeq(inq, 1, 2) /\ inq' = SubSeq(inq, 3, Len(inq))
       ELSE cur' = <<Head(inq)>> /\ inq' = Tail(inq)
    /\ left' \in IF Head(inq).kind = "search" /\ Head(inq).ok THEN 0..MaxEntries ELSE {0}
    /\ UNCHANGED <<wire, up, nsent, pending, broken>>

Deliver ==
    /\ up /\ cur # << >> /\ left > 0
    /\ wire' = Append(wire, [id |-> cur[1].id, tag |-> Entry, code |-> 0])
    /\ left' = left - 1
    /\ UNCHANGED <<inq, cur, up, nsent, pending, broken>>

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Answer(i) ==
    LET r == cur[i]
        code == IF r.ok \/ Fault = "accept" THEN 0 ELSE 1
        tag == IF Fault = "type" /\ r.kind = "delete" THEN 7 ELSE FinalTag(r.kind)
        id == IF Fault = "number" /\ Len(inq) > 0 THEN r.id + 1 ELSE r.id
        m == [id |-> id, tag |-> tag, code |-> code]
    IN  /\ HasAnswer(r.kind)
        /\ wire' = CASE Fault = "drop" /\ r.kind = "bind" -> wire
                     [] Fault = "twice" /\ ~r.ok -> wire \o <<m, m>>
                     [] OTHER -> Append(wire, m)
        /\ cur' = Without(cur, i)
        /\ UNCHANGED <<inq, left, up, nsent, pending, broken>>

Finish == up /\ left = 0 /\ \E i \in DOMAIN cur : Answer(i)

End ==
    /\ up /\ cur # << >> /\ left = 0
    /\ MayEnd(cur[1]) \/ (Fault = "hangup" /\ cur[1].kind = "search")
    /\ up' = FALSE
    /\ UNCHANGED <<inq, cur, left, wire, nsent, pending, broken>>

Receive ==
    /\ wire # << >>
    /\ broken' = broken \cup MsgBreaks(pending, Head(wire))
    /\ pending' = AfterMsg(pending, Head(wire))
    /\ wire' = Tail(wire)
    /\ UNCHANGED <<inq, cur, left, up, nsent>>

SeeEnd ==
    /\ ~up /\ wire = << >> /\ pending # << >>
    /\ broken' = broken \cup EndBreaks(pending)
    /\ pending' = << >>
    /\ UNCHANGED <<inq, cur, left, wire, up, nsent>>

SeeSilence ==
    /\ up /\ inq = << >> /\ cur = << >> /\ wire = << >>
    /\ broken' = broken \cup SilenceBreaks(pending)
    /\ UNCHANGED <<inq, cur, left, wire, up, nsent, pending>>

Next == Send \/ Take \/ Deliver \/ Finish \/ End \/ Receive \/ SeeEnd \/ SeeSilence

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Take \/ Deliver \/ Finish \/ End) /\ WF_vars(Receive) /\ WF_vars(SeeEnd)

Quiet == broken = {}

\* Everything sent is answered, or the connection ends.
Answered == (pending # << >>) ~> (pending = << >>)
=============================================================================
