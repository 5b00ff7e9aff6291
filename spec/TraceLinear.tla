----------------------------- MODULE TraceLinear -----------------------------
(***************************************************************************)
(* Recorded windows of concurrent requests.  Every line of the trace is    *)
(* one window: the directory before it, all requests with their answers    *)
(* and times, and the directory after it.  TLC looks for the order: a      *)
(* state is the set of requests already executed and the directory they    *)
(* left; a window for which no order exists is reported.                   *)
(***************************************************************************)
EXTENDS Stored, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES w, tree, done

vars == <<w, tree, done>>

Sets(a) == [t \in DOMAIN a |-> Range(a[t])]

TreeOf(es) ==
    LET ds == { es[i].dn : i \in DOMAIN es }
    IN  [d \in ds |-> Sets(es[CHOOSE i \in DOMAIN es : es[i].dn = d].attrs)]

Op(o) == IF o.k = "add" THEN [o EXCEPT !.attrs = Sets(o.attrs)] ELSE o

L == INSTANCE Linear WITH
        Base <- Trace[w].base, Admin <- Trace[w].admin, AnonOK <- FALSE,
        Known <- [s \in DOMAIN Trace[w].known |-> Range(Trace[w].known[s])]

Ops == [i \in DOMAIN Trace[w].ops |->
          LET e == Trace[w].ops[i]
          IN  [e EXCEPT !.op = Op(e.op),
                        !.got = [k \in DOMAIN e.got |-> [dn |-> e.got[k].dn, attrs |-> Sets(e.got[k].attrs)]]]]

Left == DOMAIN Trace[w].ops \ done

Init ==
    /\ w \in 1..Len(Trace)
    /\ TLCSet(w, FALSE)
    /\ tree = TreeOf(Trace[w].start)
    /\ done = {}

Execute(i) ==
    /\ \A j \in Left : Trace[w].ops[j].ret > Trace[w].ops[i].inv
    /\ \E t \in L!Steps(tree, Ops[i]) : tree' = t
    /\ done' = done \cup {i}
    /\ (Left = {i} /\ tree' = TreeOf(Trace[w].final)) => TLCSet(w, TRUE)
    /\ UNCHANGED w

Next == \E i \in Left : Execute(i)

Spec == Init /\ [][Next]_vars

Report(n) ==
    /\ TLCGet(n) \/ PrintT("VIOL " \o ToString(n) \o " order")
    /\ (\A i \in DOMAIN Trace[n].ops : Trace[n].ops[i].res >= 0 \/ Trace[n].ops[i].lost) \/ PrintT("VIOL " \o ToString(n) \o " answer")
    /\ RawOK(Trace[n].base, Trace[n].raw) \/ PrintT("VIOL " \o ToString(n) \o " tree")
    /\ Trace[n].alive \/ PrintT("VIOL " \o ToString(n) \o " alive")

Accepted == (\A n \in 1..Len(Trace) : Report(n)) /\ PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
=============================================================================
