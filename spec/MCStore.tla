------------------------------- MODULE MCStore -------------------------------
(***************************************************************************)
(* A request changes two pages (an entry and an index) by one transaction: *)
(* copies of the pages are written to unused slots and synchronised, then  *)
(* the older of the roots is replaced and synchronised, then the request   *)
(* is answered.  The power may fail at any moment, and every write and     *)
(* synchronisation may fail; then the request is answered with an error.   *)
(*                                                                         *)
(* Fault: "none"; "nosync1", "nosync2": one of the synchronisations is     *)
(* left out; "inplace": the pages in use are overwritten; "onemeta": there *)
(* is only one root; "early": the answer comes before the second           *)
(* synchronisation; "twotx": the two pages are changed by a transaction    *)
(* each; "ignore": errors of synchronisations are not noticed.             *)
(***************************************************************************)
EXTENDS Store, TLC

CONSTANTS Fault, MaxReq

VARIABLES disk, pend, pc, req, acked, fresh, part, up

vars == <<disk, pend, pc, req, acked, fresh, part, up>>

View == PutAll(disk, pend)
Page(v) == [tx |-> 0, at |-> << >>, v |-> v]

First == CHOOSE p \in Pages : TRUE
Second == CHOOSE p \in Pages : p # First

Init ==
    /\ disk = [s \in Slots |->
                 IF s = "m0" THEN [tx |-> 1, at |-> <<First, Second>>, v |-> 0]
                 ELSE IF s = "m1" THEN [tx |-> 0, at |-> <<First, Second>>, v |-> 0]
                 ELSE IF s \in {First, Second} THEN Page(0) ELSE Garbage]
    /\ pend = << >> /\ pc = "idle" /\ req = 0 /\ acked = 0
    /\ fresh = << >> /\ part = 0 /\ up = TRUE

InUse == { View["m0"].at[i] : i \in DOMAIN View["m0"].at } \cup { View["m1"].at[i] : i \in DOMAIN View["m1"].at }

Begin ==
    /\ up /\ pc = "idle" /\ req < MaxReq
    /\ req' = req + 1
    /\ part' = IF Fault = "twotx" THEN 1 ELSE 0
    /\ pc' = "pages"
    /\ UNCHANGED <<disk, pend, acked, fresh, up>>

\* The pages that this transaction writes, in order.
Parts == IF part = 0 THEN {1, 2} ELSE {part}

WritePages ==
    /\ up /\ pc = "pages"
    /\ LET old == Root(View).at
           slots == IF Fault = "inplace" THEN old
                    ELSE LET free == Pages \ InUse
                             a == CHOOSE p \in free : TRUE
                             b == CHOOSE p \in free : p # a
                         IN  <<IF 1 \in Parts THEN a ELSE old[1], IF 2 \in Parts THEN b ELSE old[2]>>
           news == SelectSeq(<<[slot |-> slots[1], val |-> Page(req), n |-> 1], [slot |-> slots[2], val |-> Page(req), n |-> 2]>>, LAMBDA x : x.n \in Parts)
       IN  /\ fresh' = slots
           /\ pend' = pend \o [i \in DOMAIN news |-> [slot |-> news[i].slot, val |-> news[i].val]]
    /\ pc' = "sync1"
    /\ UNCHANGED <<disk, req, acked, part, up>>

Flush == disk' = View /\ pend' = << >>

Sync1 ==
    /\ up /\ pc = "sync1"
    /\ IF Fault = "nosync1" THEN UNCHANGED <<disk, pend>> ELSE Flush
    /\ pc' = "root"
    /\ UNCHANGED <<req, acked, fresh, part, up>>

WriteRoot ==
    /\ up /\ pc = "root"
    /\ LET r == Root(View)
           slot == IF Fault = "onemeta" THEN "m0"
                   ELSE IF View["m0"].tx > View["m1"].tx THEN "m1" ELSE "m0"
       IN  pend' = Append(pend, [slot |-> slot, val |-> [tx |-> r.tx + 1, at |-> fresh, v |-> 0]])
    /\ pc' = "sync2"
    /\ UNCHANGED <<disk, req, acked, fresh, part, up>>

More == Fault = "twotx" /\ part = 1

Sync2 ==
    /\ up /\ pc = "sync2"
    /\ IF Fault = "nosync2" THEN UNCHANGED <<disk, pend>> ELSE Flush
    /\ pc' = IF More THEN "pages" ELSE "reply"
    /\ part' = IF More THEN 2 ELSE part
    /\ UNCHANGED <<req, acked, fresh, up>>

Reply ==
    /\ up /\ pc = "reply"
    /\ acked' = req /\ pc' = "idle"
    /\ UNCHANGED <<disk, pend, req, fresh, part, up>>

Early ==
    /\ Fault = "early" /\ up /\ pc = "sync2"
    /\ acked' = req
    /\ UNCHANGED <<disk, pend, pc, req, fresh, part, up>>

\* A write or a synchronisation fails.  The request is answered with an
\* error; what was written stays pending.  (A failing write may be any of
\* those of the step.)
IoError ==
    /\ up /\ pc \in {"pages", "sync1", "root", "sync2"}
    /\ IF Fault = "ignore" /\ pc = "sync2"
       THEN pc' = "reply"
       ELSE pc' = "idle"
    /\ UNCHANGED <<disk, pend, req, acked, fresh, part, up>>

PowerFailure ==
    /\ up
    /\ up' = FALSE /\ pc' = "down"
    /\ disk' \in After(disk, pend)
    /\ pend' = << >>
    /\ UNCHANGED <<req, acked, fresh, part>>

Restart ==
    /\ ~up
    /\ up' = TRUE /\ pc' = "idle"
    /\ UNCHANGED <<disk, pend, req, acked, fresh, part>>

Next == Begin \/ WritePages \/ Sync1 \/ WriteRoot \/ Sync2 \/ Reply \/ Early \/ IoError \/ PowerFailure \/ Restart

Spec == Init /\ [][Next]_vars

Got == Content(disk)

\* After a failure and a restart nothing acknowledged is missing, and no change is there by half.
Recovered == pc = "down" => /\ Len(Got) = 2 /\ Got[1] = Got[2]
                            /\ Got[1] >= acked /\ Got[1] <= req

\* The running server does not see half of a change either.
Live == up /\ pc \in {"idle", "reply"} => LET c == Content(View) IN Len(c) = 2 /\ c[1] = c[2] /\ c[1] >= acked
=============================================================================
