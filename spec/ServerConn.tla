----------------------------- MODULE ServerConn -----------------------------
(***************************************************************************)
(* What a client may see on one connection: every request is answered by   *)
(* one final message of the type belonging to it, in the order of the      *)
(* requests; the entries of a search come before its final message.        *)
(*                                                                         *)
(* A request is a record [id, kind, ok].  kind names the operation, ok     *)
(* tells whether the server supports and understands it.  A message is a   *)
(* record [id, tag, code].                                                 *)
(*                                                                         *)
(* The monitor is the sequence of the requests not answered yet.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Entry == 4

\* Application tags of the final answers (RFC 4511).
FinalTag(kind) ==
    CASE kind = "bind" -> 1
      [] kind = "search" -> 5
      [] kind = "modify" -> 7
      [] kind = "add" -> 9
      [] kind = "delete" -> 11
      [] kind = "rename" -> 13
      [] kind = "compare" -> 15
      [] kind = "extended" -> 24
      [] OTHER -> 0

HasAnswer(kind) == FinalTag(kind) # 0

\* Which rules does a message break that arrives while pending is outstanding?
MsgBreaks(pending, m) ==
    IF pending = << >> THEN {"extra"}
    ELSE LET r == Head(pending)
         IN  (IF m.id # r.id THEN {"number"} ELSE {})
             \cup (IF m.tag = Entry
                   THEN IF r.kind # "search" THEN {"type"} ELSE {}
                   ELSE (IF HasAnswer(r.kind) /\ m.tag # FinalTag(r.kind) THEN {"type"} ELSE {})
                        \cup (IF r.kind = "unbind" THEN {"extra"} ELSE {})
                        \cup (IF ~r.ok /\ m.code = 0 THEN {"accepted"} ELSE {}))

AfterMsg(pending, m) == IF pending = << >> \/ m.tag = Entry THEN pending ELSE Tail(pending)

\* The server may end the connection instead of answering these.
MayEnd(r) == r.kind = "unbind" \/ ~r.ok

\* The connection was ended by the server.
EndBreaks(pending) == IF pending # << >> /\ MayEnd(Head(pending)) THEN {} ELSE {"ended"}

\* Nothing arrived for a long time.
SilenceBreaks(pending) == IF pending = << >> THEN {} ELSE {"silent"}

=============================================================================
