----------------------------- MODULE MCCounters -----------------------------
(***************************************************************************)
(* A server that counts under a lock, its clients and a collector, watched *)
(* by the monitor of Counters.  Fault selects a defect of the server; the  *)
(* monitor has to notice each and to accept the correct one.               *)
(***************************************************************************)
EXTENDS Counters, Sequences, TLC

CONSTANTS Conns, Each, Fault

VARIABLES
    lock,     \* holder of the lock of the statistics, or "free"
    stat,     \* [n, conns, cur, max]
    pc,       \* state of each connection
    reg,      \* what a connection has read and will write back
    left,     \* requests a client still sends
    snap,     \* what the collector has read so far
    mon, wrong

vars == <<lock, stat, pc, reg, left, snap, mon, wrong>>

Zero == [n |-> Nothing, conns |-> 0, cur |-> 0, max |-> 0]

Init ==
    /\ lock = "free" /\ stat = Zero
    /\ pc = [c \in Conns |-> "new"] /\ reg = [c \in Conns |-> Zero] /\ left = [c \in Conns |-> Each]
    /\ snap = << >> /\ mon = Start /\ wrong = {}

To(c, s) == pc' = [pc EXCEPT ![c] = s]

Dial(c) == pc[c] = "new" /\ To(c, "dialed") /\ mon' = Dialed(mon, c) /\ UNCHANGED <<lock, stat, reg, left, snap, wrong>>

Lock(c, at, next) ==
    /\ pc[c] = at
    /\ lock = "free" \/ Fault = "nolock"
    /\ lock' = IF Fault = "nolock" THEN lock ELSE c
    /\ reg' = [reg EXCEPT ![c] = stat]
    /\ To(c, next) /\ UNCHANGED <<stat, left, snap, mon, wrong>>

Write(c, at, next, f(_)) ==
    /\ pc[c] = at
    /\ stat' = f(reg[c])
    /\ lock' = IF lock = c THEN "free" ELSE lock
    /\ To(c, next) /\ UNCHANGED <<reg, left, snap, mon, wrong>>

Accepted(s) == [s EXCEPT !.conns = @ + 1, !.cur = @ + 1, !.max = IF Fault = "maxlow" THEN Max(@, s.cur) ELSE Max(@, s.cur + 1)]
Ended(s) == IF Fault = "noclose" THEN s ELSE [s EXCEPT !.cur = @ - 1]
Got(s) == [s EXCEPT !.n["bind"] = @ + IF Fault = "double" THEN 2 ELSE 1]

Request(c) ==
    /\ pc[c] = "up" /\ left[c] > 0
    /\ left' = [left EXCEPT ![c] = @ - 1]
    /\ mon' = Sent(mon, "bind")
    /\ To(c, "sent") /\ UNCHANGED <<lock, stat, reg, snap, wrong>>

Answer(c) == pc[c] = "counted" /\ To(c, "up") /\ mon' = Answered(mon, c) /\ UNCHANGED <<lock, stat, reg, left, snap, wrong>>

Close(c) == pc[c] = "up" /\ left[c] < Each /\ To(c, "closing") /\ mon' = Closing(mon, c) /\ UNCHANGED <<lock, stat, reg, left, snap, wrong>>

\* The collector copies the statistics under the lock.
Collect1 ==
    /\ snap = << >> /\ (lock = "free" \/ Fault = "nolock")
    /\ lock' = IF Fault = "nolock" THEN lock ELSE "collector"
    /\ snap' = <<stat>>
    /\ UNCHANGED <<stat, pc, reg, left, mon, wrong>>

Collect2 ==
    /\ snap # << >>
    /\ wrong' = wrong \cup Wrong(mon, snap[1])
    /\ mon' = Seen(mon, snap[1])
    /\ lock' = IF lock = "collector" /\ Fault # "leak" THEN "free" ELSE lock
    /\ snap' = << >>
    /\ UNCHANGED <<stat, pc, reg, left>>

Quiet == snap = << >> /\ \A c \in Conns : pc[c] \in {"new", "up", "done"} /\ (pc[c] = "up" => left[c] < Each)

Settle ==
    /\ Quiet
    /\ wrong' = wrong \cup WrongSettled(mon, stat)
    /\ mon' = Settled(mon, stat)
    /\ UNCHANGED <<lock, stat, pc, reg, left, snap>>

Serve(c) ==
    \/ Lock(c, "dialed", "accepting") \/ Write(c, "accepting", "up", Accepted)
    \/ Lock(c, "sent", "counting") \/ Write(c, "counting", "counted", Got) \/ Answer(c)
    \/ Lock(c, "closing", "ending") \/ Write(c, "ending", "done", Ended)

Next == (\E c \in Conns : Dial(c) \/ Request(c) \/ Close(c) \/ Serve(c)) \/ Collect1 \/ Collect2 \/ Settle

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ (\A c \in Conns : SF_vars(Serve(c))) /\ WF_vars(Collect2)

True == wrong = {}

\* Collecting never keeps a request from being answered.
Served == \A c \in Conns : (pc[c] = "sent") ~> (pc[c] = "up")
=============================================================================
