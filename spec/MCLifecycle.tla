---------------------------- MODULE MCLifecycle ----------------------------
(***************************************************************************)
(* The server built as the implementation is: a start that opens two       *)
(* listeners and asks for the signals, a loop that takes signals from      *)
(* channels of capacity one (a signal that finds its channel full is       *)
(* dropped), a reload beside the loop, and an end that closes the          *)
(* listeners, waits for all parts, and exits.  The environment opens       *)
(* connections, writes, and sends signals at any moment.  Fault selects a  *)
(* defect that the judgement of Lifecycle has to notice.                   *)
(***************************************************************************)
EXTENDS Lifecycle, Sequences, TLC, Json

CONSTANTS Fault, Signals, Writes, Starts

Listeners == {"ldap", "ldaps"}

\* What the driver does to a server, in all orders, and how it ends it.
ASSUME PrintT("WALK " \o ToJson([acts |-> {"open", "opens", "use", "write", "hup", "hups", "frozen"},
                                 ends |-> {"term", "int", "hupterm", "frozenterm", "frozenint", "twice", "both", "termhup"}]))

VARIABLES pc,       \* where the main loop is: off, init, run, closing, gone
          valid,    \* the configuration
          lst,      \* listeners that accept
          notified, \* the process has asked for the signals
          chT, chH, \* the channels: termination and reload (one channel if shared)
          reload,   \* a reload is asked for / under way / not
          conns,    \* connections open
          stored,   \* changes in the database
          pend,     \* changes being stored
          code,     \* exit code, -1 while running
          mine,     \* connections the environment has opened
          judged,   \* the start has been judged
          sent, wr, starts,
          j, wrong

vars == <<pc, valid, lst, notified, chT, chH, reload, conns, stored, pend, code, mine, judged, sent, wr, starts, j, wrong>>
impl == <<pc, valid, lst, notified, chT, chH, reload, conns, stored, pend, code>>

Init ==
    /\ pc = "off" /\ valid = TRUE /\ lst = {} /\ notified = FALSE /\ chT = 0 /\ chH = 0 /\ reload = "no"
    /\ conns = 0 /\ stored = {} /\ pend = {} /\ code = 0 /\ mine = 0 /\ judged = TRUE /\ sent = 0 /\ wr = 0 /\ starts = 0
    /\ j = Fresh /\ wrong = {}

Exit(c) == /\ pc' = "gone" /\ code' = c /\ lst' = {} /\ notified' = FALSE /\ chT' = 0 /\ chH' = 0 /\ reload' = "no"
           /\ conns' = 0 /\ pend' = {} /\ UNCHANGED <<valid, stored>>

------------------------------------------------------------------------------
(* The server. *)

Boot ==
    /\ pc = "init" /\ notified = FALSE /\ lst = {}
    /\ IF ~valid /\ Fault # "serves" THEN Exit(1)
       ELSE /\ IF Fault = "late" THEN UNCHANGED notified ELSE notified' = TRUE
            /\ pc' = "listen"
            /\ UNCHANGED <<valid, lst, chT, chH, reload, conns, stored, pend, code>>

MayListen(x) == pc \in {"listen", "run"} /\ x \notin lst /\ ~(Fault = "deaf" /\ x = "ldaps")

Listen(x) ==
    /\ MayListen(x)
    /\ lst' = lst \cup {x}
    /\ pc' = IF pc = "listen" THEN "run" ELSE pc
    /\ UNCHANGED <<valid, notified, chT, chH, reload, conns, stored, pend, code>>

\* The defect of asking for the signals only after the listeners were started.
Notify == pc = "run" /\ ~notified /\ notified' = TRUE /\ UNCHANGED <<pc, valid, lst, chT, chH, reload, conns, stored, pend, code>>

TakeH ==
    /\ pc = "run" /\ notified /\ chH > 0
    /\ chH' = 0
    /\ IF Fault = "hupstops" THEN pc' = "closing" /\ UNCHANGED reload
       ELSE pc' = pc /\ reload' = (IF reload = "no" THEN "asked" ELSE reload)
    /\ UNCHANGED <<valid, lst, notified, chT, conns, stored, pend, code>>

TakeT ==
    /\ pc = "run" /\ notified /\ chT > 0
    /\ chT' = 0 /\ pc' = "closing"
    /\ UNCHANGED <<valid, lst, notified, chH, reload, conns, stored, pend, code>>

Reload ==
    /\ pc \in {"run", "closing"} /\ reload = "asked" /\ reload' = "no"
    /\ conns' = IF Fault = "hupdrops" THEN 0 ELSE conns
    /\ UNCHANGED <<pc, valid, lst, notified, chT, chH, stored, pend, code>>

MayClose(x) == pc = "closing" /\ x \in lst /\ ~(Fault = "oneopen" /\ x = "ldaps")

Close(x) ==
    /\ MayClose(x)
    /\ lst' = lst \ {x}
    /\ UNCHANGED <<pc, valid, notified, chT, chH, reload, conns, stored, pend, code>>

\* Either all parts have ended, or a second signal hurries it.
End ==
    /\ pc = "closing" /\ (lst = {} \/ chT > 0)
    /\ Exit(IF Fault = "badcode" THEN 1 ELSE 0)

Store ==
    \E n \in pend : /\ stored' = stored \cup {n} /\ pend' = pend \ {n}
                    /\ UNCHANGED <<pc, valid, lst, notified, chT, chH, reload, conns, code>>

Server == (Boot \/ (\E x \in Listeners : Listen(x) \/ Close(x)) \/ Notify \/ TakeH \/ TakeT \/ Reload \/ End \/ Store)
          /\ UNCHANGED <<mine, judged, sent, wr, starts, j, wrong>>

------------------------------------------------------------------------------
(* The environment and what it sees. *)

\* A start is judged once the server is settled: ended, or all that will listen does.
Settled == pc = "gone" \/ (pc = "run" /\ ~(\E x \in Listeners : MayListen(x)))

Launch ==
    /\ pc \in {"off", "gone"} /\ ~j.up /\ judged /\ starts < Starts
    /\ pc' = "init" /\ valid' \in BOOLEAN /\ code' = -1 /\ starts' = starts + 1
    /\ judged' = FALSE /\ mine' = 0
    /\ UNCHANGED <<lst, notified, chT, chH, reload, conns, stored, pend, sent, wr, j, wrong>>

\* The first listener is seen to accept.
Notice ==
    /\ ~j.up /\ ~judged /\ lst # {} /\ j' = AfterStart(j, FALSE)
    /\ UNCHANGED <<impl, mine, judged, sent, wr, starts, wrong>>

See ==
    /\ ~judged /\ Settled /\ (pc = "gone" => ~j.up) /\ judged' = TRUE
    /\ wrong' = wrong \cup (IF j.told THEN {} ELSE StartWrong(valid, Listeners, lst, pc = "gone", code))
    /\ j' = IF j.up THEN j ELSE AfterStart(j, pc = "gone")
    /\ UNCHANGED <<impl, mine, sent, wr, starts>>

Open ==
    /\ j.up /\ judged /\ mine < 2
    /\ \E x \in Listeners : LET ok == x \in lst IN
         /\ conns' = IF ok THEN conns + 1 ELSE conns
         /\ mine' = IF ok THEN mine + 1 ELSE mine
         /\ wrong' = wrong \cup OpenWrong(j, ok)
    /\ UNCHANGED <<pc, valid, lst, notified, chT, chH, reload, stored, pend, code, judged, sent, wr, starts, j>>

Use ==
    /\ j.up /\ mine > 0
    /\ wrong' = wrong \cup UseWrong(j, IF conns < mine THEN -1 ELSE 0)
    /\ UNCHANGED <<impl, mine, judged, sent, wr, starts, j>>

Write ==
    /\ j.up /\ conns > 0 /\ wr < Writes /\ pc \in {"run", "closing"}
    /\ wr' = wr + 1
    /\ LET n == wr + 1 IN
       \/ stored' = stored \cup {n} /\ j' = AfterWrite(j, n, 0) /\ UNCHANGED pend
       \/ stored' = stored \cup {n} /\ j' = AfterWrite(j, n, -1) /\ j.told /\ UNCHANGED pend
       \/ j' = AfterWrite(j, n, -1) /\ j.told /\ UNCHANGED <<pend, stored>>
       \/ Fault = "early" /\ pend' = pend \cup {n} /\ j' = AfterWrite(j, n, 0) /\ UNCHANGED stored
    /\ UNCHANGED <<pc, valid, lst, notified, chT, chH, reload, conns, code, mine, judged, sent, starts, wrong>>

Signal(stops) ==
    /\ j.up /\ pc # "gone" /\ sent < Signals /\ sent' = sent + 1
    /\ j' = AfterSignal(j, stops)
    /\ IF ~notified THEN Exit(2)
       ELSE /\ UNCHANGED <<pc, valid, lst, notified, reload, conns, stored, pend, code>>
            /\ IF Fault = "shared"
               THEN IF chT + chH > 0 THEN UNCHANGED <<chT, chH>>
                    ELSE chT' = (IF stops THEN 1 ELSE 0) /\ chH' = (IF stops THEN 0 ELSE 1)
               ELSE chT' = (IF stops THEN 1 ELSE chT) /\ chH' = (IF stops THEN chH ELSE 1)
    /\ UNCHANGED <<mine, judged, wr, starts, wrong>>

\* The end: the server is gone, or nothing will happen to it any more.
Quiet == pc = "run" /\ chT = 0 /\ chH = 0 /\ reload = "no" /\ notified
Hangs == (pc = "closing" /\ lst # {} /\ chT = 0 /\ ~(\E x \in Listeners : MayClose(x))) \/ Quiet

Watch ==
    /\ j.up /\ (pc = "gone" \/ (j.told /\ Hangs))
    /\ wrong' = wrong \cup EndWrong(j, pc = "gone", code, lst) \cup
                (IF pc = "gone" THEN LeftWrong(j, stored) ELSE {})
    /\ j' = IF pc = "gone" THEN AfterLeft(AfterEnd(j, TRUE), stored) ELSE j
    /\ judged' = TRUE
    /\ UNCHANGED <<impl, mine, sent, wr, starts>>

Next == Server \/ Launch \/ Notice \/ See \/ Open \/ Use \/ Write \/ Signal(TRUE) \/ Signal(FALSE) \/ Watch

Spec == Init /\ [][Next]_vars /\ WF_vars(Server) /\ WF_vars(See) /\ WF_vars(Watch)

Right == wrong = {}

\* A server told to stop ends, whatever else it is sent.
Ends == j.told /\ j.up ~> ~j.up
=============================================================================
