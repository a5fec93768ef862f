------------------------------ MODULE BusAsync ------------------------------
(* The bus with all its concurrency: every endpoint sends through a bounded pipe,
   the controller takes one frame at a time from any of them and puts copies into
   the bounded pipes of the endpoints, one after the other, waiting while one is
   full.  Endpoints join, leave, and the host may die.

   Every reachable state, at the end or not, satisfies Stream (of what has been
   received so far); what a run must not lose is required when it is over.

   Endpoints are 1..N; endpoint 1 hosts the bus in the beginning.            *)
EXTENDS Stream

CONSTANTS
  N,
  Groups,    \* Groups[e]: groups its label matches
  Prog,      \* Prog[e]: what it sends, <<mode, group>>
  Late,      \* endpoints that join during the run
  Leavers,   \* endpoints that may leave
  Cap,       \* frames a pipe holds
  HostDies,  \* the host may die
  Keep       \* messages without receiver wait for one (ttl)

Eps == 1..N
None == 0
NoMsg == <<>>

VARIABLES
  t,        \* instants: a new one begins when an endpoint joins or leaves, or the host dies
  host,     \* endpoint that hosts the bus (None: nobody)
  st,       \* st[e]: "out" "joining" "in" "left"
  link,     \* link[e]: host to which e is connected
  up, down, \* pipes to and from the controller; down[host] is its own inbox
  own,      \* messages of the host's own endpoint
  eps,      \* registered, in order
  todo,     \* what the controller is to route before anything else, head first:
            \* <<id, position, delivered to, tried while buffered>>
  buf,      \* waiting for a receiver
  pend,     \* pend[e]: instant at which the send in progress began
  sends, recvs, life, \* logs (life[e]: index of e's current record in recvs)
  lossy, rank
vars == <<t, host, st, link, up, down, own, eps, todo, buf, pend, sends, recvs, life, lossy, rank>>

R == [sends |-> sends, recvs |-> recvs, lossy |-> lossy, last |-> t]
Msg(id) == Prog[SenderOf(id)][IdxOf(id)]
Matches(id, e) == Msg(id)[2] \in Range(Groups[e])

NewLife(e, j0, j1) == [g |-> Groups[e], rank |-> rank, j0 |-> j0, j1 |-> j1, l0 |-> 0, l1 |-> 0, host |-> e = host, got |-> <<>>]
First0 == Eps \ Late
SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]

Init ==
  /\ t = 1 /\ host = 1 /\ rank = N + 1
  /\ st = [e \in Eps |-> IF e \in Late THEN "out" ELSE "in"]
  /\ link = [e \in Eps |-> IF e \in Late THEN None ELSE 1]
  /\ up = [e \in Eps |-> <<>>] /\ down = [e \in Eps |-> <<>>]
  /\ own = <<>>
  /\ eps = SeqOf(First0 \ {1})
  /\ todo = <<>> /\ buf = <<>>
  /\ pend = [e \in Eps |-> 0]
  /\ sends = [e \in Eps |-> <<>>]
  /\ recvs = [i \in 1..Cardinality(First0) |->
                [NewLife(SeqOf(First0)[i], 0, 0) EXCEPT !.rank = i, !.host = SeqOf(First0)[i] = 1]]
  /\ life = [e \in Eps |-> IF e \in Late THEN 0 ELSE CHOOSE i \in 1..Cardinality(First0) : SeqOf(First0)[i] = e]
  /\ lossy = <<>>

Linked(e) == host # None /\ link[e] = host

(* ---- endpoints ---- *)
BeginSend(e) ==
  /\ st[e] = "in" /\ pend[e] = 0 /\ Len(sends[e]) < Len(Prog[e])
  /\ pend' = [pend EXCEPT ![e] = t]
  /\ UNCHANGED <<host, st, link, up, down, own, eps, todo, buf, sends, recvs, life, lossy, rank>>
EndSend(e) ==
  /\ st[e] = "in" /\ pend[e] > 0 /\ Linked(e)
  /\ LET i == Len(sends[e]) + 1 IN
       /\ IF e = host THEN own' = Append(own, Id(e, i)) /\ UNCHANGED up
          ELSE Len(up[e]) < Cap /\ up' = [up EXCEPT ![e] = Append(@, <<"msg", Id(e, i)>>)] /\ UNCHANGED own
       /\ sends' = [sends EXCEPT ![e] = Append(@, <<Prog[e][i][1], Prog[e][i][2], pend[e], t, Keep>>)]
  /\ pend' = [pend EXCEPT ![e] = 0]
  /\ UNCHANGED <<host, st, link, down, eps, todo, buf, recvs, life, lossy, rank>>
Recv(e) ==
  /\ st[e] = "in" /\ down[e] # <<>>
  /\ recvs' = [recvs EXCEPT ![life[e]].got = Append(@, <<Head(down[e]), t>>)]
  /\ down' = [down EXCEPT ![e] = Tail(@)]
  /\ UNCHANGED <<host, st, link, up, own, eps, todo, buf, pend, sends, life, lossy, rank>>

Settle(h, l) == h # None /\ \A f \in Eps : st[f] = "in" => l[f] = h
\* the bus is whole again: from now on nothing may be lost
Settled(h, l) == lossy' = IF lossy # <<>> /\ lossy[1][2] > t /\ Settle(h, l) THEN <<<<0, t>>>> ELSE lossy

\* the connection is lost, noticed by receiving (everything read) or by sending
Rejoin(e) ==
  /\ st[e] = "in" /\ ~Linked(e)
  /\ down[e] = <<>> \/ pend[e] > 0
  /\ down' = [down EXCEPT ![e] = <<>>]
  /\ IF host = None
     THEN host' = e /\ link' = [link EXCEPT ![e] = e] /\ up' = [up EXCEPT ![e] = <<>>] /\ UNCHANGED st /\ Settled(e, link')
     ELSE st' = [st EXCEPT ![e] = "joining"] /\ up' = [up EXCEPT ![e] = <<<<"connect", t>>>>] /\ link' = [link EXCEPT ![e] = host]
          /\ UNCHANGED <<host, lossy>>
  /\ UNCHANGED <<own, eps, todo, buf, pend, sends, recvs, life, rank>>
JoinLate(e) ==
  /\ st[e] = "out" /\ e \in Late /\ host # None
  /\ st' = [st EXCEPT ![e] = "joining"] /\ link' = [link EXCEPT ![e] = host]
  /\ up' = [up EXCEPT ![e] = <<<<"connect", t>>>>]
  /\ UNCHANGED <<host, down, own, eps, todo, buf, pend, sends, recvs, life, lossy, rank>>
\* the host died before it answered
JoinAgain(e) ==
  /\ st[e] = "joining" /\ ~Linked(e)
  /\ st' = [st EXCEPT ![e] = IF life[e] = 0 THEN "out" ELSE "in"]
  /\ up' = [up EXCEPT ![e] = <<>>] /\ down' = [down EXCEPT ![e] = <<>>]
  /\ UNCHANGED <<host, link, own, eps, todo, buf, pend, sends, recvs, life, lossy, rank>>
Leave(e) ==
  /\ st[e] = "in" /\ e \in Leavers /\ pend[e] = 0 /\ e # host /\ Linked(e)
  /\ st' = [st EXCEPT ![e] = "left"]
  /\ down' = [down EXCEPT ![e] = <<>>]
  /\ recvs' = [recvs EXCEPT ![life[e]].l0 = t, ![life[e]].l1 = t]
  /\ UNCHANGED <<host, link, up, own, eps, todo, buf, pend, sends, life, lossy, rank>>

Die ==
  /\ HostDies /\ host # None /\ lossy = <<>> /\ Cardinality({e \in Eps : st[e] = "in"}) > 1
  /\ st' = [st EXCEPT ![host] = "left"]
  /\ recvs' = [recvs EXCEPT ![life[host]].l0 = t, ![life[host]].l1 = t]
  /\ down' = [down EXCEPT ![host] = <<>>] /\ up' = [e \in Eps |-> <<>>]
  /\ host' = None /\ own' = <<>> /\ eps' = <<>> /\ todo' = <<>> /\ buf' = <<>>
  /\ lossy' = <<<<0, 1000000>>>>
  /\ UNCHANGED <<link, pend, sends, life, rank>>

(* ---- the controller ---- *)
Idle == host # None /\ todo = <<>>
TakeMsg(e) ==
  /\ Idle /\ Linked(e) /\ up[e] # <<>> /\ Head(up[e])[1] = "msg"
  /\ up' = [up EXCEPT ![e] = Tail(@)]
  /\ todo' = <<<<Head(up[e])[2], 1, {}>>>>
  /\ UNCHANGED <<host, st, link, down, own, eps, buf, pend, sends, recvs, life, lossy, rank>>
TakeOwn ==
  /\ Idle /\ own # <<>>
  /\ own' = Tail(own) /\ todo' = <<<<Head(own), 1, {}>>>>
  /\ UNCHANGED <<host, st, link, up, down, eps, buf, pend, sends, recvs, life, lossy, rank>>
Accept(e) ==
  /\ Idle /\ st[e] = "joining" /\ Linked(e) /\ up[e] # <<>> /\ Head(up[e])[1] = "connect"
  /\ up' = [up EXCEPT ![e] = Tail(@)]
  /\ down' = [down EXCEPT ![e] = <<>>]
  /\ eps' = Append(eps, e)
  /\ st' = [st EXCEPT ![e] = "in"]
  /\ IF life[e] = 0
     THEN recvs' = Append(recvs, NewLife(e, Head(up[e])[2], t)) /\ life' = [life EXCEPT ![e] = Len(recvs) + 1]
     ELSE UNCHANGED <<recvs, life>>
  /\ rank' = rank + 1
  /\ todo' = [i \in DOMAIN buf |-> <<buf[i], 1, {}>>] /\ buf' = <<>>
  /\ Settled(host, [f \in Eps |-> IF st'[f] = "in" /\ f \notin Range(eps') /\ f # host THEN None ELSE link[f]])
  /\ UNCHANGED <<host, link, own, pend, sends>>
\* offer the message at the head to the next registration
Offer ==
  /\ host # None /\ todo # <<>>
  /\ LET id == todo[1][1] p == todo[1][2] to == todo[1][3] IN
     /\ p <= Len(eps) /\ ~(Msg(id)[1] = "u" /\ to # {})
     /\ LET e == eps[p] IN
        IF ~Matches(id, e) THEN todo' = [todo EXCEPT ![1][2] = p + 1] /\ UNCHANGED <<down, eps>>
        ELSE IF st[e] = "left"
        THEN eps' = SelectSeq(eps, LAMBDA f : f # e) /\ UNCHANGED <<todo, down>>
        ELSE /\ Len(down[e]) < Cap
             /\ down' = [down EXCEPT ![e] = Append(@, id)]
             /\ todo' = [todo EXCEPT ![1][2] = p + 1, ![1][3] = to \cup {e}] /\ UNCHANGED eps
  /\ UNCHANGED <<host, st, link, up, own, buf, pend, sends, recvs, life, lossy, rank>>
Done ==
  /\ host # None /\ todo # <<>>
  /\ LET id == todo[1][1] p == todo[1][2] to == todo[1][3]
         mine == Matches(id, host) /\ (Msg(id)[1] = "m" \/ to = {})
     IN  /\ p > Len(eps) \/ (Msg(id)[1] = "u" /\ to # {})
         /\ down' = IF mine THEN [down EXCEPT ![host] = Append(@, id)] ELSE down
         /\ buf' = IF ~mine /\ to = {} /\ Keep THEN Append(buf, id) ELSE buf
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<host, st, link, up, own, eps, pend, sends, recvs, life, lossy, rank>>

Marks == \E e \in Eps : Accept(e) \/ JoinLate(e) \/ Leave(e) \/ Rejoin(e)
Controller == TakeOwn \/ Offer \/ Done \/ \E e \in Eps : TakeMsg(e)
Endpoint(e) == BeginSend(e) \/ EndSend(e) \/ Recv(e) \/ JoinAgain(e)
Quiet == (Controller \/ \E e \in Eps : Endpoint(e)) /\ UNCHANGED t
Loud == (Die \/ \E e \in Eps : Accept(e) \/ JoinLate(e) \/ Leave(e) \/ Rejoin(e)) /\ t' = t + 1
Next == Quiet \/ Loud
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Quiet) /\ \A e \in Eps : WF_vars((Accept(e) \/ JoinLate(e) \/ Rejoin(e)) /\ t' = t + 1)

Over == ~ENABLED (Controller \/ \E e \in Eps : Endpoint(e) \/ Accept(e) \/ JoinLate(e) \/ Rejoin(e))

(* At any time: nothing wrong has been received *)
Safe == Sound(R) /\ LET Q == Digest(R) IN Ordered(R, Q) /\ Single(R, Q) /\ (HostDies \/ FirstLive(R, Q))
(* at the end: nothing is missing *)
\* what waits is taken in the end
EverTaken == Keep => \A e \in Eps : \A i \in DOMAIN Prog[e] : Prog[e][i][1] = "u" => \E f \in Eps \ Leavers : Prog[e][i][2] \in Range(Groups[f])
Complete == Over => LET Q == Digest(R) IN Multicasts(R, Q) /\ (EverTaken => UnicastsArrive(R, Q))
(* nobody is stuck: when it is over everybody has sent everything *)
NoneStuck == Over => \A e \in Eps : st[e] \in {"in", "left", "out"} /\ (st[e] = "in" => Len(sends[e]) = Len(Prog[e]) /\ down[e] = <<>>)
=============================================================================
