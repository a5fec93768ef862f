------------------------------ MODULE BusCore ------------------------------
(* The bus of one identifier, as the implementation structures it: endpoints
   hold at most one connection at a time; a connection is a registration in the
   controller's list plus a one-way pipe back to the endpoint; the controller
   handles one frame at a time.  The world is a record so that the sequential
   generator (BusSeq), the asynchronous design model (BusAsync) and the trace
   checkers compose the same operators.

   W.now   logical time
   W.ctl   [up, owner, gen, rx, token]  current controller (rx: own receiver open)
   W.eps   registrations in registration order, <<[e, k], ...>>
   W.buf   messages waiting for an endpoint, <<[m, exp], ...>>
   W.box   [e -> unread messages of e]
   W.ep    [e -> [mode, k, rd, sd, label, aff, token, types, gen]]
             mode: "new" | "client" | "server" | "gone" (left) | "dead" (killed)
             k:    number of the current connection of e
             gen:  the controller generation the connection belongs to
   Messages: [id, from, sel, mode ("u" | "m"), ttl, ty]                       *)
EXTENDS LabelOp, FiniteSets, SequencesExt

CONSTANT VerOk(_, _)   \* VerOk(e, f): the versions of the processes of e and f are compatible

NoCtl(gen) == [up |-> FALSE, owner |-> "", gen |-> gen, rx |-> FALSE, token |-> ""]

Linked(W, e) == W.ctl.up /\ W.ep[e].mode = "client" /\ W.ep[e].gen = W.ctl.gen

\* A registration is live when its endpoint still reads from that very connection
LiveReg(W, r) == /\ W.ep[r.e].mode = "client"
                 /\ W.ep[r.e].k = r.k
                 /\ W.ep[r.e].rd

Matching(W, m) == {i \in 1..Len(W.eps) : Eval(m.sel, W.ep[W.eps[i].e].label)}
LiveMatching(W, m) == {i \in Matching(W, m) : LiveReg(W, W.eps[i])}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Registrations the message is handed to
Targets(W, m) ==
  LET live == LiveMatching(W, m)
  IN  IF m.mode = "m" \/ live = {} THEN live ELSE {MinOf(live)}

\* Dead registrations the controller trips over while routing m
Evicted(W, m) ==
  LET live == LiveMatching(W, m)
      dead == Matching(W, m) \ live
  IN  IF m.mode = "m" \/ live = {} THEN dead
      ELSE {i \in dead : i < MinOf(live)}

KeepIdx(s, keep) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(s) THEN <<>>
               ELSE IF i \in keep THEN <<s[i]>> \o go(i + 1) ELSE go(i + 1)
  IN  go(1)

SelfHit(W, m) ==
  /\ W.ctl.rx
  /\ Eval(m.sel, W.ep[W.ctl.owner].label)
  /\ (m.mode = "m" \/ Targets(W, m) = {})

Receivers(W, m) ==
  {W.eps[i].e : i \in Targets(W, m)} \cup (IF SelfHit(W, m) THEN {W.ctl.owner} ELSE {})

\* the controller routes one message
Routed(W, m) == Receivers(W, m) # {}
Route(W, m) ==
  LET rs == Receivers(W, m)
  IN  [W EXCEPT !.box = [e \in DOMAIN W.box |-> IF e \in rs THEN Append(W.box[e], m) ELSE W.box[e]],
                !.eps = KeepIdx(W.eps, (1..Len(W.eps)) \ Evicted(W, m))]

Maintain(W) == [W EXCEPT !.buf = SelectSeq(W.buf, LAMBDA b : b.exp > W.now)]

\* the controller handles a message frame
Handle(W, m) ==
  LET W1 == Route(W, m)
      W2 == IF Routed(W, m) \/ m.ttl = 0 THEN W1
            ELSE [W1 EXCEPT !.buf = Append(@, [m |-> m, exp |-> W.now + m.ttl])]
  IN  Maintain(W2)

\* a registered endpoint makes the controller retry everything it has buffered
RECURSIVE FlushFrom(_, _, _)
FlushFrom(W, old, kept) ==
  IF old = <<>> THEN [W EXCEPT !.buf = kept]
  ELSE LET b == Head(old)
       IN  IF b.exp <= W.now THEN FlushFrom(W, Tail(old), kept)
           ELSE IF Routed(W, b.m) THEN FlushFrom(Route(W, b.m), Tail(old), kept)
           ELSE FlushFrom(Route(W, b.m), Tail(old), Append(kept, b))
Flush(W) == FlushFrom([W EXCEPT !.buf = <<>>], W.buf, <<>>)

\* the controller accepts the connection of client e
Connect(W, e) ==
  LET k == W.ep[e].k + 1
      W1 == [W EXCEPT !.ep[e].mode = "client", !.ep[e].k = k, !.ep[e].rd = TRUE,
                      !.ep[e].gen = W.ctl.gen, !.box[e] = <<>>,
                      !.eps = Append(@, [e |-> e, k |-> k])]
  IN  Maintain(Flush(W1))

\* e takes over as controller
Elect(W, e) ==
  [W EXCEPT !.ep[e].mode = "server", !.ep[e].k = @ + 1, !.ep[e].rd = TRUE,
            !.ep[e].gen = W.ctl.gen + 1, !.box[e] = <<>>, !.eps = <<>>, !.buf = <<>>,
            !.ctl = [up |-> TRUE, owner |-> e, gen |-> W.ctl.gen + 1, rx |-> TRUE,
                     token |-> W.ep[e].token]]

CloseReader(W, e) ==
  LET W1 == [W EXCEPT !.ep[e].rd = FALSE, !.box[e] = <<>>]
  IN  IF W.ctl.up /\ W.ctl.owner = e THEN [W1 EXCEPT !.ctl.rx = FALSE] ELSE W1

\* Outcome of trying to get onto the bus: "elect" | "connect" | "version" | "token" | "none"
JoinOutcome(W, e) ==
  IF W.ctl.up /\ ~VerOk(e, W.ctl.owner) THEN "version"
  ELSE IF W.ctl.up THEN (IF W.ctl.token = W.ep[e].token THEN "connect" ELSE "token")
  ELSE IF W.ep[e].aff THEN "elect" ELSE "none"

JoinWorld(W, e) ==
  CASE JoinOutcome(W, e) = "connect" -> Connect(W, e)
    [] JoinOutcome(W, e) = "elect" -> Elect(W, e)
    [] OTHER -> W

\* e lost its connection and joins again; a closed receiver stays closed and
\* whatever was not read from the old connection is gone
Rejoin(W, e) ==
  LET rd == W.ep[e].rd
      W0 == [W EXCEPT !.box[e] = <<>>]
      W1 == JoinWorld(W0, e)
  IN  IF JoinOutcome(W0, e) \in {"connect", "elect"} /\ ~rd THEN CloseReader(W1, e) ELSE W1

Kill(W, e) ==
  LET W1 == [W EXCEPT !.ep[e].mode = "dead", !.ep[e].rd = FALSE, !.ep[e].sd = FALSE,
                      !.box[e] = <<>>]
  IN  IF W.ctl.up /\ W.ctl.owner = e
      THEN [W1 EXCEPT !.ctl = NoCtl(W.ctl.gen), !.eps = <<>>, !.buf = <<>>]
      ELSE W1
=============================================================================
