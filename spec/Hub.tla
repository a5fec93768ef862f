--------------------------------- MODULE Hub ---------------------------------
(* How the bus host serves those who have something for it: the queue of its own
   endpoints (woken through an eventfd), one socket per client, the listening
   socket.  The kernel keeps a list of ready descriptors: a descriptor enters at
   the end when it becomes ready, the first is reported and goes to the end.  The controller alternates between its own queue and the
   descriptors.

   Service is fair: whoever has a message at the head of its queue waits for at
   most Bound messages of others; and the controller never sleeps while there is
   something to do.

   A client connects (its connection waits to be accepted) and then asks to be
   registered, which is a message like any other; from then on it is "up".
   One that leaves hangs up: its socket stays ready until the controller has read
   what it still sent, found the end and given the socket up.

   Without new messages the controller comes to rest: nothing that is ready but
   cannot be dealt with keeps it running.

   Stepped: behaviours are printed as what happens around the controller while it
   stands before a wait ("permit": it may wait once), for replay.  A send to the
   own queue is two steps, putting it there and waking the controller.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Clients, MaxMsgs,
          MaxWaking,  \* threads that send to the own queue at once
          Stepped, D, Pick(_)

VARIABLES q,      \* [source -> number of messages waiting]; source 0: the host's own queue
          acc,    \* clients accepted
          up,     \* clients registered
          back,   \* connections waiting to be accepted
          hup,    \* clients that have hung up and are still accepted
          woken,  \* the eventfd is set
          waking, \* sends to the own queue whose wake-up is still to come
          ready,  \* the kernel's list
          pc,     \* "top" | "wait" | "poll"
          hop,    \* the turn of the descriptors
          sent, by, hist, done
vars == <<q, acc, up, back, hup, woken, waking, ready, pc, hop, sent, by, hist, done>>

Src == {0} \cup Clients
W == 100
Li == 101
Active == Cardinality(Clients) + 1

Init == /\ q = [s \in Src |-> 0] /\ acc = {} /\ up = {} /\ back = <<>> /\ hup = {} /\ woken = FALSE /\ waking = 0
        /\ ready = <<>> /\ pc = "wait" /\ hop = FALSE /\ sent = 0
        /\ by = [s \in Src |-> 0] /\ hist = <<>> /\ done = FALSE

InList(x) == \E i \in 1..Len(ready) : ready[i] = x
Raised(x) == IF InList(x) THEN ready ELSE Append(ready, x)
Note(r) == hist' = IF Stepped THEN Append(hist, r) ELSE hist
NoNote == UNCHANGED hist

\* one of others' messages has been routed: everybody who waits notices
Routed(s) == by' = [t \in Src |-> IF t = s THEN 0 ELSE IF q[t] > 0 THEN by[t] + 1 ELSE 0]

(* ------------------------------- around it ------------------------------- *)
HostSend ==
  /\ sent < MaxMsgs /\ sent' = sent + 1
  /\ q' = [q EXCEPT ![0] = @ + 1]
  /\ waking < MaxWaking /\ waking' = waking + 1
  /\ Note([op |-> "push"])
  /\ UNCHANGED <<acc, up, back, hup, woken, ready, pc, hop, by, done>>
Wake ==
  /\ waking > 0 /\ waking' = waking - 1 /\ woken' = TRUE /\ ready' = Raised(W)
  /\ Note([op |-> "wake"]) /\ UNCHANGED <<q, acc, up, back, hup, pc, hop, sent, by, done>>
Connect ==
  /\ \E c \in Pick(Clients \ (acc \cup {back[i] : i \in 1..Len(back)})) :
       /\ back' = Append(back, c) /\ ready' = Raised(Li) /\ Note([op |-> "join", s |-> c])
  /\ UNCHANGED <<q, acc, up, hup, woken, waking, pc, hop, sent, by, done>>
ClientSend ==
  /\ sent < MaxMsgs /\ sent' = sent + 1
  /\ \E c \in Pick(up \ hup) :
       /\ q' = [q EXCEPT ![c] = @ + 1] /\ ready' = Raised(c) /\ Note([op |-> "send", s |-> c])
  /\ UNCHANGED <<acc, up, back, hup, woken, waking, pc, hop, by, done>>
Leave ==
  /\ sent < MaxMsgs /\ sent' = sent + 1
  /\ \E c \in Pick(up \ hup) :
       /\ hup' = hup \cup {c} /\ ready' = Raised(c) /\ Note([op |-> "leave", s |-> c])
  /\ UNCHANGED <<q, acc, up, back, woken, waking, pc, hop, by, done>>

(* ------------------------------ the controller ------------------------------ *)
Top ==
  /\ pc = "top"
  /\ IF hop THEN pc' = "poll" /\ hop' = FALSE /\ UNCHANGED <<q, by>>
     ELSE IF q[0] > 0
     THEN /\ q' = [q EXCEPT ![0] = @ - 1] /\ Routed(0) /\ hop' = TRUE /\ UNCHANGED pc
     ELSE pc' = "wait" /\ UNCHANGED <<q, hop, by>>
  /\ NoNote /\ UNCHANGED <<acc, up, back, hup, woken, waking, ready, sent, done>>

\* what is reported goes to the end of the list; what has meanwhile been dealt with
\* is taken off it when its turn comes
IsReady(x) == CASE x = W -> woken [] x = Li -> back # <<>> [] OTHER -> q[x] > 0 \/ x \in hup
Wait ==
  /\ pc \in {"wait", "poll"}
  /\ LET on == {i \in 1..Len(ready) : IsReady(ready[i])} IN
     IF on = {}
     THEN pc = "poll" /\ pc' = "top" /\ ready' = <<>> /\ UNCHANGED <<q, acc, up, back, hup, woken, by>>
     ELSE LET i == CHOOSE i \in on : \A j \in on : i <= j
              x == ready[i]
              rest == Append(SubSeq(ready, i + 1, Len(ready)), x)
          IN  /\ pc' = IF x = W THEN "clear" ELSE "top"
              /\ CASE x = W -> /\ ready' = rest /\ UNCHANGED <<q, acc, up, back, hup, woken, by>>
                   [] x = Li -> /\ acc' = acc \cup {Head(back)} /\ back' = Tail(back)
                                /\ q' = [q EXCEPT ![Head(back)] = 1]
                                /\ ready' = Append(rest, Head(back))
                                /\ UNCHANGED <<up, hup, woken, by>>
                   [] x \in Clients /\ q[x] > 0 ->
                               /\ q' = [q EXCEPT ![x] = @ - 1] /\ Routed(x)
                               /\ ready' = rest
                               /\ up' = up \cup {x} /\ UNCHANGED <<acc, back, hup, woken>>
                   [] OTHER -> /\ acc' = acc \ {x} /\ up' = up \ {x} /\ hup' = hup \ {x}
                               /\ ready' = SubSeq(ready, i + 1, Len(ready))
                               /\ UNCHANGED <<q, back, woken, by>>
  /\ Note([op |-> "permit"])
  /\ UNCHANGED <<hop, waking, sent, done>>
\* the eventfd is read (what woke up meanwhile is forgotten with it, its message is not)
Clear ==
  /\ pc = "clear" /\ pc' = "top" /\ woken' = FALSE
    /\ Note([op |-> "permit"])
  /\ UNCHANGED <<q, acc, up, back, hup, waking, ready, hop, sent, by, done>>

Finish ==
  /\ Stepped /\ Len(hist) >= D /\ ~done /\ done' = TRUE
  /\ PrintT("@@" \o ToJson([hist |-> hist]))
  /\ UNCHANGED <<q, acc, up, back, hup, woken, waking, ready, pc, hop, sent, by, hist>>

Next ==
  IF Stepped
  THEN IF pc = "top" THEN Top
       ELSE (Len(hist) < D /\ (HostSend \/ Wake \/ Connect \/ ClientSend \/ Leave \/ Wait \/ Clear)) \/ Finish
  ELSE HostSend \/ Wake \/ Connect \/ ClientSend \/ Leave \/ Top \/ Wait \/ Clear
Spec == Init /\ [][Next]_vars
\* the controller goes on, senders do what they began
FairSpec == Spec /\ WF_vars(Top) /\ WF_vars(Wait) /\ WF_vars(Clear) /\ WF_vars(Wake)

(* ------------------------------- properties ------------------------------- *)
\* n sources: how many messages of others may come first
Bound(n) == 2 * n + 1
Fair == \A s \in Src : by[s] <= Bound(Active)
\* blocked for good
Noticed == \A x \in Clients \cup {W, Li} : IsReady(x) => InList(x)
Asleep == pc = "wait" /\ waking = 0 /\ ~\E x \in Clients \cup {W, Li} : IsReady(x)
NothingLeft == Asleep => /\ \A s \in Src : q[s] = 0 /\ back = <<>> /\ hup = {}
EverythingRouted == \A s \in Src : q[s] > 0 ~> q[s] = 0
\* nothing new, no more turns
Rests == <>[]Asleep
Admitted == back # <<>> ~> back = <<>>
=============================================================================
