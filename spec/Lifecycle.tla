----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* What may be seen of a server from its start to its end: which of its    *)
(* listeners accept, what becomes of connections, signals, and what is     *)
(* left in the database.  The state of the judge:                          *)
(*   up      the server has started and was not seen to end                *)
(*   told    a termination signal was sent                                 *)
(*   sure    changes acknowledged since the database was made              *)
(*   may     changes sent whose answer never came                          *)
(***************************************************************************)
EXTENDS Integers

Fresh == [up |-> FALSE, told |-> FALSE, sure |-> {}, may |-> {}]

If(c, name) == IF c THEN {name} ELSE {}

\* A start; accepts are the listeners of the configuration that accept.
StartWrong(valid, wanted, accepts, ended, code) ==
    IF valid THEN If(ended \/ accepts # wanted, "start")
    ELSE If(~ended \/ code = 0, "invalid")

AfterStart(s, ended) == [s EXCEPT !.up = ~ended, !.told = FALSE]

Serves(s) == s.up /\ ~s.told

\* A new connection, and a request on an open one.
OpenWrong(s, ok) == If(Serves(s) /\ ~ok, "accept")
UseWrong(s, res) == If(Serves(s) /\ res # 0, "drop")

AfterWrite(s, n, res) ==
    IF res = 0 THEN [s EXCEPT !.sure = @ \cup {n}, !.may = @ \ {n}]
    ELSE IF res < 0 THEN [s EXCEPT !.may = @ \cup {n}]
    ELSE s

AfterSignal(s, stops) == IF stops THEN [s EXCEPT !.told = TRUE] ELSE s

\* The server is found to have ended or not; held are the listeners whose
\* addresses are still taken.
EndWrong(s, ended, code, held) ==
    IF ~s.told THEN If(s.up /\ ended, "stopped")
    ELSE IF ~ended THEN {"exit"}
    ELSE If(code # 0, "code") \cup If(held # {}, "released")

AfterEnd(s, ended) == [s EXCEPT !.up = ~ended]

\* What the database holds after the end of the server, or what a server
\* started on it shows.
LeftWrong(s, names) == If(~(s.sure \subseteq names), "lost") \cup If(~(names \subseteq s.sure \cup s.may), "more")

AfterLeft(s, names) == [s EXCEPT !.sure = names, !.may = {}]
=============================================================================
