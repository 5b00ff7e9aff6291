---------------------------- MODULE MCResources -----------------------------
(***************************************************************************)
(* Connections and searches of a server, and what they hold.  Each client  *)
(* comes once, asks for something and leaves at any time, in the middle of *)
(* anything.  A connection is served by a task that holds a file; a paged  *)
(* search has a task of its own, which waits for the client to ask for     *)
(* the next page, but not forever.  Changes replace pages of the database; *)
(* a replaced page can be used again when no reader needs it any more.     *)
(* Fault selects a defect that has to be noticed.                          *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Conns, Asks, Fault

VARIABLES
    client,   \* none, there, gone
    task,     \* none, greeting, reading, working, answering, done
    file,     \* connections whose file is open
    pump,     \* none, waiting, done: the task of the paged search of a connection
    asked,    \* number of requests of a client
    reader,   \* connections that read from the database
    pages     \* pages of the database: those in use and those kept for readers

vars == <<client, task, file, pump, asked, reader, pages>>

Init ==
    /\ client = [c \in Conns |-> "none"] /\ task = [c \in Conns |-> "none"] /\ file = {}
    /\ pump = [c \in Conns |-> "none"] /\ asked = [c \in Conns |-> 0] /\ reader = {} /\ pages = 1

To(c, s) == task' = [task EXCEPT ![c] = s]

Dial(c) ==
    /\ client[c] = "none"
    /\ client' = [client EXCEPT ![c] = "there"] /\ file' = file \cup {c} /\ To(c, "greeting")
    /\ UNCHANGED <<pump, asked, reader, pages>>

Leave(c) ==
    /\ client[c] = "there"
    /\ client' = [client EXCEPT ![c] = "gone"]
    /\ UNCHANGED <<task, file, pump, asked, reader, pages>>

\* The server notices at the next read or write that the client has gone.
End(c) ==
    /\ client[c] = "gone" /\ task[c] \in {"greeting", "reading", "answering"}
    /\ ~(Fault = "greeting" /\ task[c] = "greeting")
    /\ ~(Fault = "answering" /\ task[c] = "answering")
    /\ To(c, "done") /\ file' = file \ {c}
    /\ UNCHANGED <<client, pump, asked, reader, pages>>

Greet(c) == client[c] = "there" /\ task[c] = "greeting" /\ To(c, "reading") /\ UNCHANGED <<client, file, pump, asked, reader, pages>>

\* A request is taken, even if its sender has left meanwhile.
Take(c) ==
    /\ task[c] = "reading" /\ asked[c] < Asks
    /\ asked' = [asked EXCEPT ![c] = @ + 1] /\ To(c, "working") /\ reader' = reader \cup {c}
    /\ UNCHANGED <<client, file, pump, pages>>

Handle(c) ==
    /\ task[c] = "working" /\ To(c, "answering")
    /\ reader' = IF Fault = "reader" THEN reader ELSE reader \ {c}
    /\ pump' \in {pump} \cup (IF pump[c] = "none" THEN {[pump EXCEPT ![c] = "waiting"]} ELSE {})
    /\ UNCHANGED <<client, file, asked, pages>>

\* Input that cannot be handled ends the connection.
Fail(c) ==
    /\ task[c] = "working" /\ To(c, "done")
    /\ file' = IF Fault = "failing" THEN file ELSE file \ {c}
    /\ reader' = reader \ {c}
    /\ UNCHANGED <<client, pump, asked, pages>>

Answer(c) == client[c] = "there" /\ task[c] = "answering" /\ To(c, "reading") /\ UNCHANGED <<client, file, pump, asked, reader, pages>>

\* All pages were asked for, or the client took too long.
Pumped(c) ==
    /\ pump[c] = "waiting"
    /\ client[c] = "there" \/ Fault # "pump"
    /\ pump' = [pump EXCEPT ![c] = "done"]
    /\ UNCHANGED <<client, task, file, asked, reader, pages>>

\* A change of the directory.
Change ==
    /\ pages' = IF reader = {} THEN 1 ELSE IF pages < 3 THEN pages + 1 ELSE pages
    /\ UNCHANGED <<client, task, file, pump, asked, reader>>

Serve(c) == End(c) \/ Handle(c) \/ Fail(c) \/ Answer(c) \/ Pumped(c)

Next == Change \/ \E c \in Conns : Dial(c) \/ Leave(c) \/ Greet(c) \/ Take(c) \/ Serve(c)

Spec == Init /\ [][Next]_vars /\ WF_vars(Change) /\ \A c \in Conns : WF_vars(End(c)) /\ WF_vars(Handle(c)) /\ WF_vars(Pumped(c))

Gone == \A c \in Conns : client[c] # "there"
Tasks == { c \in Conns : task[c] \notin {"none", "done"} } \cup { c \in Conns : pump[c] = "waiting" }

\* What has been left behind by clients that have gone.
Nothing == file = {} /\ Tasks = {}
LeavesNothing == (<>[]Gone) => <>[]Nothing
NoGrowth == (<>[]Gone) => <>[](pages = 1)

\* Every open file belongs to a task.
Owned == \A c \in file : task[c] \notin {"none", "done"}
=============================================================================
