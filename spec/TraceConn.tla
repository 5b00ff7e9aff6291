----------------------------- MODULE TraceConn -----------------------------
(***************************************************************************)
(* Judges recorded conversations: the messages of each connection by the   *)
(* monitor of ServerConn, and after bad input of one client whether the    *)
(* server, the other clients and the directory are unharmed.               *)
(***************************************************************************)
EXTENDS ServerConn, LdapGrammar, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    l, pend,
    dir,      \* content of the directory
    may       \* the input since the last probe may have changed it

vars == <<l, pend, dir, may>>

e0 == Trace[l]
EmptyFcn == [x \in {} |-> x]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Report(s, n) == \A c \in s : PrintT("VIOL " \o ToString(n) \o " " \o c)
Unless(b, c) == IF b THEN {} ELSE {c}

Init == l = 1 /\ pend = EmptyFcn /\ dir = "" /\ may = FALSE

NewRun == e0.ev = "run" /\ pend' = EmptyFcn /\ dir' = e0.dir /\ may' = FALSE

Open == e0.ev = "open" /\ pend' = With(pend, e0.conn, << >>) /\ UNCHANGED <<dir, may>>

\* The client gave up; nothing more is expected.
Close == e0.ev = "close" /\ pend' = [c \in DOMAIN pend \ {e0.conn} |-> pend[c]] /\ UNCHANGED <<dir, may>>

Send == e0.ev = "send" /\ pend' = With(pend, e0.conn, pend[e0.conn] \o e0.reqs) /\ UNCHANGED <<dir, may>>

Msg ==
    /\ e0.ev = "msg"
    /\ Report(MsgBreaks(pend[e0.conn], e0), l)
    /\ pend' = With(pend, e0.conn, AfterMsg(pend[e0.conn], e0))
    /\ UNCHANGED <<dir, may>>

End ==
    /\ e0.ev = "end"
    /\ Report(EndBreaks(pend[e0.conn]), l)
    /\ pend' = [c \in DOMAIN pend \ {e0.conn} |-> pend[c]]
    /\ UNCHANGED <<dir, may>>

Silence == e0.ev = "silence" /\ Report(SilenceBreaks(pend[e0.conn]), l) /\ UNCHANGED <<pend, dir, may>>

\* Bytes that are no message of the protocol were received.
Garbled == e0.ev = "garbled" /\ Report({"garbled"}, l) /\ UNCHANGED <<pend, dir, may>>

\* Input of one connection.  complete: it is finished, so the server cannot
\* be waiting for more.  admin: sent with the right to change the directory.
\* tree: the message, if it is a single one that can be decoded; exact: the
\* input is a single message.
MayChange(e) == e.admin /\ (IF e.exact THEN e.tree # << >> /\ WellFormedChange(e.tree[1]) ELSE TRUE)

Bad ==
    /\ e0.ev = "bad"
    /\ Report(Unless(e0.outcome # "silent" \/ ~e0.complete, "hanging"), l)
    /\ may' = (may \/ MayChange(e0))
    /\ UNCHANGED <<pend, dir>>

\* How the server is doing afterwards.
Probe ==
    /\ e0.ev = "probe"
    /\ Report(Unless(e0.alive, "alive") \cup Unless(~e0.alive \/ e0.other, "others")
              \cup Unless(~e0.alive \/ e0.fresh, "accept") \cup Unless(may \/ e0.may \/ e0.dir = dir, "changed"), l)
    /\ dir' = e0.dir /\ may' = FALSE /\ UNCHANGED pend

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ NewRun \/ Open \/ Close \/ Send \/ Msg \/ End \/ Silence \/ Garbled \/ Bad \/ Probe

Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
