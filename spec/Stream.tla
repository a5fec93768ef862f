------------------------------- MODULE Stream -------------------------------
(* What the logs of endpoints that send and receive concurrently must look like,
   whatever the interleaving.  Used twice: as the invariant of the design model
   BusAsync, and (StreamTrace) on logs recorded from the implementation.

   A run R is a record
     sends  sequence over sender threads of sequences of <<mode, group, t0, t1, kept>>:
            the i-th message of thread s, identified by Id(s, i), sent between
            the instants t0 and t1, for endpoints whose label contains group;
            kept: it waits for a receiver if it has none (ttl)
     recvs  sequence over receivers (one for each time an endpoint is on the bus)
            of records [g: groups it matches, rank: position in the order of
            joining, j0, j1: joined between, l0, l1: left between (0, 0: stayed
            to the end and received everything), host: belongs to the bus host,
            got: sequence of <<id, t>>, received at t]
     lossy  sequence of <<from, to>>: the bus was without host during this time
     last   instant at which the run ended                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Base == 100000
Id(s, i) == s * Base + i
SenderOf(id) == id \div Base
IdxOf(id) == id % Base

Range(f) == {f[x] : x \in DOMAIN f}
Has(r, g) == g \in Range(r.g)
M(R, id) == R.sends[SenderOf(id)][IdxOf(id)]

Valid(R, id) == /\ SenderOf(id) \in DOMAIN R.sends
                /\ IdxOf(id) \in DOMAIN R.sends[SenderOf(id)]

\* everything received was sent, before, to this receiver
Sound(R) ==
  \A k \in DOMAIN R.recvs : \A n \in DOMAIN R.recvs[k].got :
     LET id == R.recvs[k].got[n][1]
     IN  /\ Valid(R, id)
         /\ Has(R.recvs[k], M(R, id)[2])
         /\ M(R, id)[3] <= R.recvs[k].got[n][2]

\* what k received from s, in the order received: <<index, t>>
From(R, k, s) == LET x == SelectSeq(R.recvs[k].got, LAMBDA y : SenderOf(y[1]) = s)
                 IN  [n \in DOMAIN x |-> IdxOf(x[n][1])]
\* Q[k][s]
Digest(R) == TLCEval([k \in DOMAIN R.recvs |-> TLCEval([s \in DOMAIN R.sends |-> TLCEval(From(R, k, s))])])

\* from one sender: in order, and so at most once
Ordered(R, Q) == \A k \in DOMAIN Q : \A s \in DOMAIN Q[k] : \A n \in 1..(Len(Q[k][s]) - 1) : Q[k][s][n] < Q[k][s][n + 1]

Mode(R, s, i) == R.sends[s][i][1]
Unicasts(R, Q, k, s) == {i \in Range(Q[k][s]) : Mode(R, s, i) = "u"}
\* a unicast message has one receiver at most
Single(R, Q) ==
  \A s \in DOMAIN R.sends : \A k, j \in DOMAIN Q :
     k < j => Unicasts(R, Q, k, s) \cap Unicasts(R, Q, j, s) = {}

Lossy(R, m) == \E w \in Range(R.lossy) : m[3] <= w[2] /\ m[4] >= w[1]

\* (when ordered)
Last(Q, k, s) == IF Q[k][s] = <<>> THEN 0 ELSE Q[k][s][Len(Q[k][s])]

\* Not receiving a multicast has a reason: it was routed before joining or after leaving.
\* (What k received of messages sent before it joined may have waited for it.)
Waited(R, k, s, i) == R.sends[s][i][5] /\ R.sends[s][i][3] <= R.recvs[k].j1
First(R, Q, k, s) == LET x == SelectSeq(Q[k][s], LAMBDA i : ~Waited(R, k, s, i)) IN IF x = <<>> THEN Base ELSE x[1]
MissOk(R, Q, k, s, i) ==
  LET r == R.recvs[k] m == R.sends[s][i]
  IN  \/ Lossy(R, m)
      \/ (m[3] <= r.j1 /\ i < First(R, Q, k, s))
      \/ (r.l1 > 0 /\ i > Last(Q, k, s))
Multicasts(R, Q) ==
  \A k \in DOMAIN Q : \A s \in DOMAIN R.sends :
     LET seen == TLCEval(Range(Q[k][s])) IN
       \A i \in DOMAIN R.sends[s] :
         (Mode(R, s, i) = "m" /\ Has(R.recvs[k], R.sends[s][i][2]) /\ i \notin seen) => MissOk(R, Q, k, s, i)

\* the receivers that a unicast to g may go to
Cands(R, g) == {k \in DOMAIN R.recvs : Has(R.recvs[k], g)}
Before(a, b) == IF a.host = b.host THEN a.rank < b.rank ELSE b.host
\* a unicast nobody received was in the inbox of one that left without receiving it
UnicastLostOk(R, Q, s, i) ==
  LET m == R.sends[s][i]
  IN  \/ Lossy(R, m)
      \/ ~m[5] /\ ~\E k \in Cands(R, m[2]) : R.recvs[k].j1 < m[3] /\ R.recvs[k].l1 = 0
      \/ \E k \in Cands(R, m[2]) : LET r == R.recvs[k] IN
            /\ r.l1 > 0 /\ m[3] <= r.l1 /\ i > Last(Q, k, s)
UnicastsArrive(R, Q) ==
  \A s \in DOMAIN R.sends :
     LET seen == TLCEval(UNION {Range(Q[k][s]) : k \in DOMAIN Q}) IN
       \A i \in DOMAIN R.sends[s] : (Mode(R, s, i) = "u" /\ i \notin seen) => UnicastLostOk(R, Q, s, i)

\* the receiver was the first in the order of joining, the host's own last
FirstLive(R, Q) ==
  \A k \in DOMAIN R.recvs :
     LET ahead == TLCEval({q \in DOMAIN R.recvs : Before(R.recvs[q], R.recvs[k])}) IN
     ahead # {} =>
     \A n \in DOMAIN R.recvs[k].got :
       LET id == R.recvs[k].got[n][1] m == M(R, id) t == R.recvs[k].got[n][2]
       IN  (m[1] = "u" /\ ~Lossy(R, m)) =>
           \A q \in ahead : Has(R.recvs[q], m[2]) =>
                 ~(R.recvs[q].j1 < m[3] /\ (R.recvs[q].l1 = 0 \/ R.recvs[q].l0 > t))

Clauses(R) ==
  IF ~Sound(R) THEN {"received what was not sent to it"}
  ELSE LET Q == Digest(R) IN
    IF ~Ordered(R, Q) THEN {"out of order, or twice"}
    ELSE (IF Single(R, Q) THEN {} ELSE {"a unicast message has two receivers"})
        \cup (IF Multicasts(R, Q) THEN {} ELSE {"a multicast message is missing"})
        \cup (IF UnicastsArrive(R, Q) THEN {} ELSE {"a unicast message is lost"})
        \cup (IF FirstLive(R, Q) THEN {} ELSE {"a unicast message went to another than the first"})
=============================================================================
