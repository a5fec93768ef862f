--------------------------- MODULE SharedEndpoint ---------------------------
(* The threads that share one endpoint, when the bus they are on dies: senders
   (clones of the sending half) and the receiving thread R.  A thread that finds
   the connection lost joins again for all of them; the others wait for it.

   A step is what a thread does between two system calls of sending and joining
   ("gates"), so that a behaviour can be forced upon the implementation: pc says
   at which call a thread is stopped.  (Of those that send on the same connection
   one is at the call, and the others wait for it; which one does not matter.)

     (Only one thread at a time is at the sendmsg of a connection, the others that
   want to send on it wait for it; which one goes next does not matter.)

     "idle"  in no operation        "pre"   waits for R to let go of the connection
                                    "q"     would send, but waits for the one at "pre"
     "send"  sendmsg of a message   "conn"  connect
     "poll"  epoll_wait of recv     "csend" sendmsg of the request to join
     "in"    waits for a message    "bind"  bind
     "wait"  waits for the one that joins again
     "chan"  R of the endpoint that hosts the bus waits for a message
     "gone"  R was dropped  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Senders, Aff, MaxKill, MaxSend, D, Chance(_)

R == "R"
Threads == Senders \cup {R}
None == "none"

VARIABLES
  host,    \* generation of the bus host in another process, 0: none
  nextgen,
  self,    \* the endpoint hosts the bus
  gen,     \* generation its connection belongs to
  rej,     \* thread that joins again
  pc, at,  \* at[t]: generation of the connection t uses
  regs,    \* regs[g]: registrations of the endpoint on bus g
  sent,    \* messages sent by each sender
  kills, hist, done
vars == <<host, nextgen, self, gen, rej, pc, at, regs, sent, kills, hist, done>>

Alive(g) == host = g /\ host > 0

Init ==
  /\ host = 1 /\ nextgen = 2 /\ self = FALSE /\ gen = 1 /\ rej = None
  /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> 1]
  /\ regs = [g \in 1..(MaxKill + 2) |-> IF g = 1 THEN 1 ELSE 0]
  /\ sent = [s \in Senders |-> 0]
  /\ kills = 0 /\ hist = <<>> /\ done = FALSE

(* who goes on how.  S: [pc, at, sent, rej]; the connection is (sf, g) *)
\* R holds on to its connection until it sees that it is lost
Held(S, g) == S.pc[R] = "poll" /\ S.at[R] = g

\* t goes on with the connection as it is
Again(S, t, sf, g) ==
  IF t = R THEN (IF sf THEN [S EXCEPT !.pc[t] = "chan"] ELSE [S EXCEPT !.pc[t] = "poll", !.at[t] = g])
  ELSE IF sf THEN [S EXCEPT !.pc[t] = "idle", !.sent[t] = @ + 1]
  ELSE [S EXCEPT !.pc[t] = "send", !.at[t] = g]

\* t found its connection lost
Enter(S, t, sf, g) ==
  IF S.rej # None THEN [S EXCEPT !.pc[t] = "wait"]
  ELSE IF sf \/ g # S.at[t] THEN Again(S, t, sf, g)
  ELSE [S EXCEPT !.rej = t, !.pc[t] = IF t # R /\ Held(S, g) THEN "pre" ELSE "conn"]

\* R lets go of its connection
LetGo(S) ==
  IF S.rej # None /\ S.pc[S.rej] = "pre"
  THEN [S EXCEPT !.pc = [t \in Threads |-> IF t = S.rej THEN "conn" ELSE IF @[t] = "q" THEN "send" ELSE @[t]]]
  ELSE S

RECURSIVE AllAgain(_, _, _, _)
AllAgain(S, T, sf, g) ==
  IF T = {} THEN S ELSE LET t == CHOOSE x \in T : TRUE IN AllAgain(Again(S, t, sf, g), T \ {t}, sf, g)
\* the one that joins again has a new connection: everybody goes on
Installed(S, sf, g) == AllAgain([S EXCEPT !.rej = None], {t \in Threads : S.pc[t] = "wait"} \cup {S.rej}, sf, g)

St == [pc |-> pc, at |-> at, sent |-> sent, rej |-> rej]
Becomes(S) == pc' = S.pc /\ at' = S.at /\ sent' = S.sent /\ rej' = S.rej
Gates == {"send", "poll", "conn", "csend", "bind"}
\* everything the driver needs to compare with
Rec(op, t) == hist' = Append(hist, [op |-> op, t |-> t, pc |-> pc', at |-> at', sent |-> sent'])

Start(s) ==
  /\ Chance("start") /\ s \in Senders /\ pc[s] = "idle" /\ sent[s] < MaxSend
  /\ Becomes(IF rej # None /\ pc[rej] = "pre" THEN [St EXCEPT !.pc[s] = "q", !.at[s] = gen] ELSE Again(St, s, self, gen))
  /\ UNCHANGED <<host, nextgen, self, gen, regs, kills>>
  /\ Rec("start", s)
\* (while somebody joins again there is no connection to read from)
StartR ==
  /\ Chance("startr") /\ pc[R] = "idle"
  /\ Becomes(IF rej # None THEN [St EXCEPT !.pc[R] = "wait"] ELSE Again(St, R, self, gen))
  /\ UNCHANGED <<host, nextgen, self, gen, regs, kills>>
  /\ Rec("startr", R)
\* recv with a short timeout while somebody else joins again: it times out
ShortR ==
  /\ Chance("short") /\ pc[R] = "idle" /\ rej # None /\ pc[rej] # "pre"
  /\ UNCHANGED <<host, nextgen, self, gen, regs, kills, pc, at, sent, rej>>
  /\ Rec("short", R)
DropR ==
  /\ Chance("dropr") /\ pc[R] = "idle"
  /\ pc' = [pc EXCEPT ![R] = "gone"]
  /\ UNCHANGED <<host, nextgen, self, gen, regs, kills, at, sent, rej>>
  /\ Rec("dropr", R)
Kill ==
  /\ Chance("kill") /\ host > 0 /\ kills < MaxKill
  /\ host' = 0 /\ kills' = kills + 1
  /\ Becomes(IF pc[R] = "in" THEN Enter(LetGo(St), R, self, gen) ELSE St)
  /\ UNCHANGED <<nextgen, self, gen, regs>>
  /\ Rec("kill", R)
NewHost ==
  /\ Chance("host") /\ host = 0 /\ ~self
  /\ host' = nextgen /\ nextgen' = nextgen + 1
  /\ UNCHANGED <<self, gen, regs, kills, pc, at, sent, rej>>
  /\ Rec("host", R)

Permit(t) ==
  /\ pc[t] \in Gates
  /\ CASE pc[t] = "send" ->
            /\ Becomes(IF Alive(at[t]) THEN [St EXCEPT !.pc[t] = "idle", !.sent[t] = @ + 1] ELSE Enter(St, t, self, gen))
            /\ UNCHANGED <<host, nextgen, self, gen, regs>>
       [] pc[t] = "poll" ->
            /\ Becomes(IF Alive(at[t]) THEN [St EXCEPT !.pc[t] = "in"] ELSE Enter(LetGo([St EXCEPT !.pc[t] = "wait"]), t, self, gen))
            /\ UNCHANGED <<host, nextgen, self, gen, regs>>
       [] pc[t] = "conn" ->
            /\ Becomes(IF host > 0 THEN [St EXCEPT !.pc[t] = "csend", !.at[t] = host]
                       ELSE IF Aff THEN [St EXCEPT !.pc[t] = "bind"] ELSE St)
            /\ UNCHANGED <<host, nextgen, self, gen, regs>>
       [] pc[t] = "csend" ->
            IF Alive(at[t])
            THEN /\ gen' = at[t] /\ regs' = [regs EXCEPT ![at[t]] = @ + 1]
                 /\ Becomes(Installed(St, FALSE, at[t]))
                 /\ UNCHANGED <<host, nextgen, self>>
            ELSE /\ Becomes([St EXCEPT !.pc[t] = "conn"])
                 /\ UNCHANGED <<host, nextgen, self, gen, regs>>
       [] pc[t] = "bind" ->
            IF host = 0
            THEN /\ self' = TRUE /\ Becomes(Installed(St, TRUE, gen))
                 /\ UNCHANGED <<host, nextgen, gen, regs>>
            ELSE /\ Becomes([St EXCEPT !.pc[t] = "conn"])
                 /\ UNCHANGED <<host, nextgen, self, gen, regs>>
  /\ UNCHANGED kills
  /\ Rec("permit", t)

Step == (\E t \in Threads : Start(t) \/ Permit(t)) \/ StartR \/ ShortR \/ DropR \/ Kill \/ NewHost
Finish == /\ Len(hist) = D /\ ~done /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([hist |-> hist, self |-> self, host |-> host, gone |-> pc[R] = "gone"]))
          /\ UNCHANGED <<host, nextgen, self, gen, rej, pc, at, regs, sent, kills, hist>>
Next == (Len(hist) < D /\ Step /\ UNCHANGED done) \/ Finish
Spec == Init /\ [][Next]_vars

(* properties *)
\* never more than one registration with one bus
RegisteredOnce == \A g \in DOMAIN regs : regs[g] <= 1
\* one at most joins again
OneJoins == Cardinality({t \in Threads : pc[t] \in {"pre", "conn", "csend", "bind"}}) <= 1 /\ (rej = None <=> \A t \in Threads : pc[t] \notin {"pre", "conn", "csend", "bind"})
\* somebody can always go on: whoever waits, waits for one that is at a gate, or for R, which is
NotStuck == \A t \in Threads : /\ pc[t] = "wait" => rej # None
                               /\ pc[t] = "pre" => pc[R] = "poll" /\ ~Alive(at[R])
                               /\ pc[t] = "q" => rej # None /\ pc[rej] = "pre"
\* a thread goes on only with a connection that was good when it was made
Known == gen < nextgen
=============================================================================
