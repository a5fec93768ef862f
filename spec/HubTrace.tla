------------------------------ MODULE HubTrace ------------------------------
(* Orders in which the implementation routed messages, judged by Hub's fairness.
   A run: n sources, ev: sequence of
     <<"s", a, b>> b messages of source a (0..n-1) have reached the bus
     <<"r", a, b>> b messages of source a were routed, nothing else in between
   Joining is a source like any other, whose messages are the endpoints that
   want to join; each takes two turns.
   A message at the head of its source's queue must not be overtaken by more
   than Slack * Bound(n) others.                                             *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS Slack
Runs == JsonDeserialize("runs.json")
Bound(n) == 2 * n + 1
VARIABLE k

Init0(n) == [q |-> [a \in 0..(n - 1) |-> 0], by |-> [a \in 0..(n - 1) |-> 0], max |-> 0, who |-> 0 - 1, bad |-> ""]
Worst(f) == CHOOSE a \in DOMAIN f : \A b \in DOMAIN f : f[a] >= f[b]
Do(e, z) ==
  LET a == e[2] m == e[3] IN
  IF e[1] = "s" THEN [z EXCEPT !.q[a] = @ + m]
  ELSE LET by == TLCEval([t \in DOMAIN z.q |-> IF t = a THEN 0 ELSE IF z.q[t] > 0 THEN z.by[t] + m ELSE 0])
           w == Worst(by)
       IN  [z EXCEPT !.q[a] = @ - m, !.by = by,
                     !.max = IF by[w] > @ THEN by[w] ELSE @,
                     !.who = IF by[w] > z.max THEN w ELSE @,
                     !.bad = IF z.q[a] < m THEN "routed more than was sent" ELSE @]
End(R) == TLCEval(FoldLeft(LAMBDA z, e : TLCEval(Do(e, z)), Init0(R.n), R.ev))

Init == k \in DOMAIN Runs
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Judged ==
  LET R == Runs[k] z == End(R)
      left == {a \in DOMAIN z.q : z.q[a] > 0}
  IN  PrintT("@@" \o ToJson([run |-> k, max |-> z.max, who |-> z.who, left |-> left,
        bad |-> (IF z.bad # "" THEN {z.bad} ELSE {})
                \cup (IF left # {} THEN {"messages stay unrouted while the bus is idle"} ELSE {})
                \cup (IF z.max > Slack * Bound(R.n) THEN {"a source with pending messages is not served"} ELSE {})]))
=============================================================================
