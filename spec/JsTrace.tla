------------------------------ MODULE JsTrace ------------------------------
(* Histories recorded from the Node interface while messages come, receive
   calls are made and timeouts end at any time.  When exactly a message came is
   not observed: some time after it was sent and before it was handed out.

   Events, in the order of their times:
     [op |-> "sent", m]                 a message was sent to the endpoint
     [op |-> "call", i]                 a receive call
     [op |-> "end", i, o, early]        its outcome; early: sooner than its timeout *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT File
Traces == JsonDeserialize(File)

VARIABLES t, k, onway, wait, q, given
vars == <<t, k, onway, wait, q, given>>
\* given: calls that have an item which was not yet observed, <<[i, m], ...>>
Fresh == k = 1 /\ onway = <<>> /\ wait = <<>> /\ q = <<>> /\ given = <<>>
Init == t \in 1..Len(Traces) /\ Fresh
Ev == Traces[t][k]

Observe ==
  /\ k <= Len(Traces[t])
  /\ k' = k + 1 /\ UNCHANGED t
  /\ CASE Ev.op = "sent" -> onway' = Append(onway, Ev.m) /\ UNCHANGED <<wait, q, given>>
       [] Ev.op = "call" ->
            IF q # <<>> THEN given' = Append(given, [i |-> Ev.i, m |-> Head(q)]) /\ q' = Tail(q) /\ UNCHANGED <<onway, wait>>
            ELSE wait' = Append(wait, Ev.i) /\ UNCHANGED <<onway, q, given>>
       [] Ev.op = "end" /\ Ev.o = "timeout" ->
            /\ ~Ev.early
            /\ \E j \in 1..Len(wait) : wait[j] = Ev.i
            /\ wait' = SelectSeq(wait, LAMBDA x : x # Ev.i) /\ UNCHANGED <<onway, q, given>>
       [] OTHER ->
            /\ given # <<>> /\ Head(given) = [i |-> Ev.i, m |-> Ev.o]
            /\ given' = Tail(given) /\ UNCHANGED <<onway, wait, q>>
\* a message comes, not before it has to
Comes ==
  /\ onway # <<>> /\ k <= Len(Traces[t])
  /\ onway' = Tail(onway)
  /\ IF wait # <<>> THEN given' = Append(given, [i |-> Head(wait), m |-> Head(onway)]) /\ wait' = Tail(wait) /\ UNCHANGED q
     ELSE q' = Append(q, Head(onway)) /\ UNCHANGED <<wait, given>>
  /\ UNCHANGED <<t, k>>
Accept == /\ k = Len(Traces[t]) + 1 /\ onway = <<>> /\ wait = <<>> /\ q = <<>> /\ given = <<>>
          /\ k' = k + 1 /\ PrintT("@@" \o ToJson([accepted |-> t])) /\ UNCHANGED <<t, onway, wait, q, given>>
Next == Observe \/ Comes \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
