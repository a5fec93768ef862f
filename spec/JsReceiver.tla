---------------------------- MODULE JsReceiver -----------------------------
(* The receiver of the Node interface: messages that come wait for receive
   calls, and receive calls wait for messages; never both at once.

   An item is <<"m", id, objects, regions>>, or <<"d">> for a message that cannot be decoded.
   A call has no timeout, a short one, or one that does not end within a
   behaviour.  Outcomes: an item, <<"timeout">>, <<"closed">>, <<"token">> (the
   bus refuses the endpoint when its host is gone), <<"thrown">>.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS D, Pick(_), Chance(_), MaxWait, MaxQ

VARIABLES wait,   \* calls that wait, <<[i, t], ...>>
          q,      \* items nobody asked for yet
          open, sent, calls,
          out,    \* outcomes in the order of the calls: <<[i, o], ...>> as they were decided
          came,   \* items in the order in which they came
          hist, done
vars == <<wait, q, open, sent, calls, out, came, hist, done>>

Init == /\ wait = <<>> /\ q = <<>> /\ open = "yes" /\ sent = 0 /\ calls = 0
        /\ out = <<>> /\ came = <<>> /\ hist = <<>> /\ done = FALSE

\* items come one after the other
RECURSIVE Came(_, _, _, _)
Came(items, w, qq, o) ==
  IF items = <<>> THEN [w |-> w, q |-> qq, o |-> o]
  ELSE IF w = <<>> THEN Came(Tail(items), w, Append(qq, Head(items)), o)
  ELSE Came(Tail(items), Tail(w), qq, Append(o, [i |-> Head(w).i, o |-> Head(items)]))

Rec(r, o) == hist' = Append(hist, r @@ [res |-> [k \in 1..(Len(o) - Len(out)) |-> o[Len(out) + k]]])

Call ==
  /\ Chance("call") /\ Len(wait) < MaxWait
  /\ \E t \in Pick({"none", "short", "long", "zero"}) :
     LET i == calls + 1
         o == IF open # "yes" THEN Append(out, [i |-> i, o |-> <<"thrown">>])
              ELSE IF q # <<>> THEN Append(out, [i |-> i, o |-> Head(q)]) ELSE out
     IN  /\ calls' = i
         /\ out' = o
         /\ q' = IF open = "yes" /\ q # <<>> THEN Tail(q) ELSE q
         /\ wait' = IF open = "yes" /\ q = <<>> THEN Append(wait, [i |-> i, t |-> t]) ELSE wait
         /\ Rec([op |-> "call", i |-> i, t |-> t], o)
  /\ UNCHANGED <<open, sent, came, done>>

Send ==
  /\ Chance("send") /\ Len(q) < MaxQ
  /\ ~ \E c \in 1..Len(wait) : wait[c].t = "zero"
  /\ \E k \in Pick(1..3), bad \in Pick(0..5), no \in Pick(0..2), nr \in Pick(0..2) :
     LET items == [j \in 1..k |-> IF j = bad THEN <<"d">> ELSE <<"m", sent + j, no, nr>>]
         r == Came(items, wait, q, out)
     IN  /\ sent' = sent + k
         /\ IF open = "yes" THEN wait' = r.w /\ q' = r.q /\ out' = r.o /\ came' = came \o items
            ELSE UNCHANGED <<wait, q, out, came>>
         /\ Rec([op |-> "send", base |-> sent, items |-> items], IF open = "yes" THEN r.o ELSE out)
  /\ UNCHANGED <<open, calls, done>>

\* the endpoint sends: the buffers arrive as regions
Post ==
  /\ Chance("post") /\ open # "lost"
  /\ \E bufs \in Pick({<<>>, <<0>>, <<1>>, <<12, 4096>>, <<5, 100000, 5>>}), len \in Pick({0, 1, 300, 40000}) :
     Rec([op |-> "post", id |-> 10000 + Len(hist), len |-> len, bufs |-> bufs], out)
  /\ UNCHANGED <<wait, q, open, sent, calls, out, came, done>>

\* time passes until every short timeout is over
Due(c) == c.t \in {"short", "zero"}
Elapse ==
  /\ Chance("elapse") /\ \E k \in 1..Len(wait) : Due(wait[k])
  /\ LET gone == SelectSeq(wait, Due)
         o == out \o [k \in 1..Len(gone) |-> [i |-> gone[k].i, o |-> <<"timeout">>]]
     IN  out' = o /\ Rec([op |-> "elapse"], o)
  /\ wait' = SelectSeq(wait, LAMBDA c : ~Due(c))
  /\ UNCHANGED <<q, open, sent, calls, came, done>>

Shut(o, w) == o \o [k \in 1..Len(w) |-> [i |-> w[k].i, o |-> <<"closed">>]]
\* a call that is due may be rejected either way: no such call then
Close ==
  /\ Chance("close") /\ ~ \E k \in 1..Len(wait) : wait[k].t = "zero"
  /\ \E how \in Pick({"close", "gc"}) :
     Rec([op |-> "close", how |-> IF open = "yes" THEN how ELSE "close"], Shut(out, wait))
  /\ out' = Shut(out, wait) /\ wait' = <<>> /\ q' = <<>>
  /\ open' = IF open = "yes" THEN "closed" ELSE open
  /\ UNCHANGED <<sent, calls, came, done>>

\* the host dies, the next one has another token
Lost ==
  /\ Chance("lost") /\ open = "yes" /\ wait # <<>> /\ ~ \E k \in 1..Len(wait) : Due(wait[k])
  /\ LET o == Shut(Append(out, [i |-> Head(wait).i, o |-> <<"token">>]), Tail(wait))
     IN  out' = o /\ Rec([op |-> "lost"], o)
  /\ wait' = <<>> /\ open' = "lost"
  /\ UNCHANGED <<q, sent, calls, came, done>>

Finish == /\ Len(hist) = D /\ ~done /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([hist |-> hist, q |-> q, wait |-> [k \in 1..Len(wait) |-> wait[k].i], open |-> open]))
          /\ UNCHANGED <<wait, q, open, sent, calls, out, came, hist>>

Next == (Len(hist) < D /\ (Call \/ Send \/ Post \/ Elapse \/ Close \/ Lost)) \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
NeverBoth == wait = <<>> \/ q = <<>>
IsItem(o) == o[1] \in {"m", "d"}
\* the n-th item goes to the n-th call that was given one, in the order of the calls
Given == SelectSeq([k \in 1..Len(out) |-> out[k]], LAMBDA r : IsItem(r.o))
OnceInOrder ==
  /\ \A k \in 1..Len(Given) : k <= Len(came) /\ Given[k].o = came[k]
  /\ \A a, b \in 1..Len(Given) : a < b => Given[a].i < Given[b].i
\* nothing that came is lost while the receiver is open
NothingLost == open = "yes" => Len(Given) + Len(q) = Len(came)
EachCallOnce == \A a, b \in 1..Len(out) : a # b => out[a].i # out[b].i
EveryCall == {out[k].i : k \in 1..Len(out)} \cup {wait[k].i : k \in 1..Len(wait)} = 1..calls
ClosedEndsAll == open # "yes" => wait = <<>>
=============================================================================
