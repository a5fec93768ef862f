----------------------------- MODULE SharedLocks -----------------------------
(* The locks of an endpoint that several threads share, and why none of them can
   get stuck: a readers-writer lock around the connection (a waiting writer keeps
   further readers out), the flag of the thread that joins again with its mutex
   and condition variable, and pipes of bounded capacity, so that a send can
   wait for the endpoint's own receiving thread.

   Protocol = "new": as in ipmb/src/lib.rs; a sending thread does not hold the
   lock while it sends, and whether the connection is still the lost one is looked
   at before the lock is taken for writing.
   Protocol = "old": before commit e8fdf64.  TLC shows it stuck (see DESIGN.md).

   All messages go to the endpoint itself.  The host dies at any moment, MaxDie
   times; another is there as soon as somebody connects.                       *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Senders, Sends, Cap, MaxDie, Protocol, Drops

R == "R"
Threads == Senders \cup {R}
None == "none"

VARIABLES
  gen,      \* generation of the bus
  dies,
  pipe,     \* messages on the way to R in the present bus
  rule,     \* [gen, hub]: generation of the connection; hub: R can read from it
  readers, writer, waiting,   \* the lock; waiting writers
  mutex, rejoining,
  pc, seen, \* seen[t]: generation of the connection t used
  left,     \* sends to do
  closed    \* R was dropped
vars == <<gen, dies, pipe, rule, readers, writer, waiting, mutex, rejoining, pc, seen, left, closed>>

Init ==
  /\ gen = 1 /\ dies = 0 /\ pipe = 0
  /\ rule = [gen |-> 1, hub |-> TRUE]
  /\ readers = {} /\ writer = None /\ waiting = {}
  /\ mutex = None /\ rejoining = FALSE
  /\ pc = [t \in Threads |-> "idle"]
  /\ seen = [t \in Threads |-> 0]
  /\ left = [s \in Senders |-> Sends]
  /\ closed = FALSE

CanRead(t) == writer = None /\ waiting = {}
CanWrite(t) == writer = None /\ readers \subseteq {t}   \* (a thread never waits with its own read lock)
To(t, l) == pc' = [pc EXCEPT ![t] = l]

Die == /\ dies < MaxDie /\ dies' = dies + 1 /\ gen' = gen + 1 /\ pipe' = 0
       /\ UNCHANGED <<rule, readers, writer, waiting, mutex, rejoining, pc, seen, left, closed>>

(* sender *)
SRead(s) == /\ pc[s] = "idle" /\ left[s] > 0 /\ CanRead(s)
            /\ seen' = [seen EXCEPT ![s] = rule.gen]
            /\ readers' = IF Protocol = "old" THEN readers \cup {s} ELSE readers
            /\ To(s, "send")
            /\ UNCHANGED <<gen, dies, pipe, rule, writer, waiting, mutex, rejoining, left, closed>>
SOk(s) == /\ pc[s] = "send" /\ seen[s] = gen
          /\ pipe < Cap \/ closed
          /\ pipe' = IF closed THEN 0 ELSE pipe + 1
          /\ left' = [left EXCEPT ![s] = @ - 1] /\ readers' = readers \ {s} /\ To(s, "idle")
          /\ UNCHANGED <<gen, dies, rule, writer, waiting, mutex, rejoining, seen, closed>>
SLost(s) == /\ pc[s] = "send" /\ seen[s] # gen
            /\ readers' = readers \ {s} /\ To(s, "enter")
            /\ UNCHANGED <<gen, dies, pipe, rule, writer, waiting, mutex, rejoining, seen, left, closed>>
(* receiving thread: holds the lock while it waits for a message *)
RRead == /\ pc[R] = "idle" /\ ~closed /\ CanRead(R)
         /\ seen' = [seen EXCEPT ![R] = rule.gen]
         /\ IF rule.hub THEN readers' = readers \cup {R} /\ To(R, "recv") ELSE UNCHANGED readers /\ To(R, "enter")
         /\ UNCHANGED <<gen, dies, pipe, rule, writer, waiting, mutex, rejoining, left, closed>>
ROk == /\ pc[R] = "recv" /\ seen[R] = gen /\ pipe > 0
       /\ pipe' = pipe - 1 /\ readers' = readers \ {R} /\ To(R, "idle")
       /\ UNCHANGED <<gen, dies, rule, writer, waiting, mutex, rejoining, seen, left, closed>>
RLost == /\ pc[R] = "recv" /\ seen[R] # gen
         /\ readers' = readers \ {R} /\ To(R, "enter")
         /\ UNCHANGED <<gen, dies, pipe, rule, writer, waiting, mutex, rejoining, seen, left, closed>>
\* drops the receiver between two messages
RDrop == /\ Drops /\ pc[R] = "idle" /\ ~closed
         /\ waiting' = waiting \cup {R} /\ To(R, "drop")
         /\ UNCHANGED <<gen, dies, pipe, rule, readers, writer, mutex, rejoining, seen, left, closed>>
RDropped == /\ pc[R] = "drop" /\ CanWrite(R)
            /\ waiting' = waiting \ {R} /\ closed' = TRUE /\ pipe' = 0 /\ rule' = [rule EXCEPT !.hub = FALSE] /\ To(R, "gone")
            /\ UNCHANGED <<gen, dies, readers, writer, mutex, rejoining, seen, left>>

(* joining again *)
Enter(t) ==
  /\ pc[t] = "enter"
  /\ IF Protocol = "old" THEN waiting' = waiting \cup {t} /\ To(t, "write") /\ UNCHANGED mutex
     ELSE mutex = None /\ ~rejoining /\ mutex' = t /\ To(t, "look") /\ UNCHANGED waiting
  /\ UNCHANGED <<gen, dies, pipe, rule, readers, writer, rejoining, seen, left, closed>>
Look(t) ==
  /\ pc[t] = "look" /\ CanRead(t)
  /\ IF rule.gen # seen[t] THEN mutex' = None /\ To(t, "idle") /\ UNCHANGED waiting
     ELSE waiting' = waiting \cup {t} /\ To(t, "write") /\ UNCHANGED mutex
  /\ UNCHANGED <<gen, dies, pipe, rule, readers, writer, rejoining, seen, left, closed>>
\* takes the connection away (new), or keeps the lock until it has joined (old)
Write(t) ==
  /\ pc[t] = "write" /\ CanWrite(t)
  /\ waiting' = waiting \ {t}
  /\ IF Protocol = "old"
     THEN IF rule.gen # seen[t] THEN To(t, "idle") /\ UNCHANGED <<writer, rule, mutex, rejoining>>
          ELSE writer' = t /\ To(t, "join") /\ rule' = [rule EXCEPT !.hub = FALSE] /\ UNCHANGED <<mutex, rejoining>>
     ELSE rule' = [rule EXCEPT !.hub = FALSE] /\ rejoining' = TRUE /\ mutex' = None /\ To(t, "join") /\ UNCHANGED writer
  /\ UNCHANGED <<gen, dies, pipe, readers, seen, left, closed>>
\* joins the present bus; the ack may take until the bus has room
Join(t) ==
  /\ pc[t] = "join"
  /\ seen' = [seen EXCEPT ![t] = gen]
  /\ waiting' = IF Protocol = "new" THEN waiting \cup {t} ELSE waiting
  /\ To(t, "install")
  /\ UNCHANGED <<gen, dies, pipe, rule, readers, writer, mutex, rejoining, left, closed>>
Install(t) ==
  /\ pc[t] = "install" /\ (Protocol = "old" \/ CanWrite(t))
  /\ rule' = [gen |-> seen[t], hub |-> ~closed]
  /\ waiting' = waiting \ {t} /\ writer' = None
  /\ rejoining' = FALSE
  /\ To(t, "idle")
  /\ UNCHANGED <<gen, dies, pipe, readers, mutex, seen, left, closed>>

Thread(t) == Enter(t) \/ Look(t) \/ Write(t) \/ Join(t) \/ Install(t)
             \/ (t \in Senders /\ (SRead(t) \/ SOk(t) \/ SLost(t)))
             \/ (t = R /\ (RRead \/ ROk \/ RLost \/ RDropped))
Next == (\E t \in Threads : Thread(t)) \/ Die \/ RDrop
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Thread(t))

(* Nobody is stuck: all senders finish, and the receiver ends up waiting on a
   connection that is good, or is gone                                        *)
AllSent == \A s \in Senders : pc[s] = "idle" /\ left[s] = 0
RFine == pc[R] \in {"recv", "gone"} /\ (pc[R] = "recv" => seen[R] = gen /\ rule.gen = gen)
Over == AllSent /\ RFine
NotStuck == (\E t \in Threads : ENABLED Thread(t)) \/ Over
Finish == <>[]AllSent
\* one that joins again at a time
One == Cardinality({t \in Threads : pc[t] \in {"join", "install"}}) <= 1
Exclusive == writer # None => readers = {}
=============================================================================
