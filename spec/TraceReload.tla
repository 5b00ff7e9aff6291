---------------------------- MODULE TraceReload ----------------------------
(***************************************************************************)
(* Searches, paged searches and binds of several clients while the data of *)
(* the LDIF backend is reloaded.  The records are the begins and ends of   *)
(* the requests and the reload signals in the order of real time.          *)
(*                                                                         *)
(* Served versions are numbered by their position in hist, the sequence of *)
(* successful reloads asked for so far.  An answer has to be explained by  *)
(* one version that was current at some moment between begin and end.  The *)
(* smallest possible version is chosen; since versions only move forward   *)
(* this is the best choice for all later answers.                          *)
(***************************************************************************)
EXTENDS LdapData, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cfg, vers, known, hist, floor, begun

vars == <<l, cfg, vers, known, hist, floor, begun>>

L == INSTANCE Ldif WITH Base <- cfg.base, AnonOK <- FALSE

Sets(a) == [t \in DOMAIN a |-> Range(a[t])]
Entries(es) ==
    LET ds == { es[i].dn : i \in DOMAIN es }
    IN  [d \in ds |-> Sets(es[CHOOSE i \in DOMAIN es : es[i].dn = d].attrs)]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Report(s, n) == \A c \in s : PrintT("VIOL " \o ToString(n) \o " " \o c)

e0 == Trace[l]

Init ==
    /\ l = 1
    /\ cfg = [base |-> << >>] /\ vers = << >> /\ known = EmptyFcn
    /\ hist = << >> /\ floor = 0 /\ begun = EmptyFcn

NewRun ==
    /\ e0.ev = "run"
    /\ cfg' = [base |-> e0.base]
    /\ vers' = [i \in DOMAIN e0.vers |-> [main |-> Entries(e0.vers[i].main), conf |-> Entries(e0.vers[i].conf)]]
    /\ known' = [s \in DOMAIN e0.known |-> Range(e0.known[s])]
    /\ hist' = <<1>> /\ floor' = 1 /\ begun' = EmptyFcn

Signal ==
    /\ e0.ev = "signal"
    /\ hist' = IF e0.to = 0 THEN hist ELSE Append(hist, e0.to)
    /\ UNCHANGED <<cfg, vers, known, floor, begun>>

Begin == e0.ev = "begin" /\ begun' = With(begun, e0.id, floor) /\ UNCHANGED <<cfg, vers, known, hist, floor>>

\* Does version v give this answer?
Explains(v, e) ==
    CASE e.op.k = "bind" -> (e.res = 0) = L!BindOK(v, known, e.op.dn, e.op.pw, TRUE)
      [] e.op.k = "search" ->
            /\ e.res = 0
            /\ Len(e.got) = Cardinality({ e.got[i].dn : i \in DOMAIN e.got })
            /\ { e.got[i].dn : i \in DOMAIN e.got } = L!Matches(v, e.op)
            /\ \A i \in DOMAIN e.got : Sets(e.got[i].attrs) = L!View(v)[e.got[i].dn]

End ==
    /\ e0.ev = "end"
    /\ LET low  == begun[e0.id]
           any  == { v \in DOMAIN vers : Explains(vers[v], e0) }
           good == { p \in low..Len(hist) : hist[p] \in any }
           pick == CHOOSE p \in good : \A q \in good : p <= q
       IN  /\ Report(IF any = {} THEN {"mix"} ELSE IF good = {} THEN {"stale"} ELSE {}, l)
           /\ floor' = IF good = {} \/ pick < floor THEN floor ELSE pick
           /\ begun' = [x \in DOMAIN begun \ {e0.id} |-> begun[x]]
    /\ UNCHANGED <<cfg, vers, known, hist>>

\* The driver waited for the latest version; from here on nothing older is served.
Settled ==
    /\ e0.ev = "settled"
    /\ Report(IF e0.seen THEN {} ELSE {"reload"}, l)
    /\ floor' = IF e0.seen THEN Len(hist) ELSE floor
    /\ UNCHANGED <<cfg, vers, known, hist, begun>>

Dead == e0.ev = "dead" /\ Report({"alive"}, l) /\ UNCHANGED <<cfg, vers, known, hist, floor, begun>>

Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ NewRun \/ Signal \/ Begin \/ End \/ Settled \/ Dead

Spec == Init /\ [][Next]_vars

Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1
            THEN PrintT("TRACE-COMPLETE " \o ToString(Len(Trace)))
            ELSE PrintT("TRACE-STUCK " \o ToString(TLCGet("stats").diameter))
=============================================================================
