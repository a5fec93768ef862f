------------------------------- MODULE BusSeq -------------------------------
(* Sequential histories of one bus: one operation at a time, each completely
   handled by the bus before the next.  Every behaviour is printed as JSON with
   the result the specification expects of every operation; the conformance
   driver replays it into the implementation.

   "mon" is an ordinary endpoint that the driver uses as a barrier; it takes
   part in routing like any other.                                           *)
EXTENDS BusCore, TLC, Json

CONSTANTS
  Eps,      \* endpoint names
  Labels,   \* labels an endpoint may join with (sets of strings)
  Tokens, Affs,
  TypeSets, \* sets of message types a receiver accepts
  Sels, Modes, Ttls, Tys,
  Advs,     \* amounts of time that may pass at once
  Ops,      \* enabled operations
  D,        \* length of a history
  Chance(_), \* Chance(op): whether op is considered now (thins out operations in random walks)
  Pick(_)   \* Pick(S) \subseteq S: everything, or one element at random

VARIABLES W, hist, nmsg, done
vars == <<W, hist, nmsg, done>>

AllEps == Eps \cup {"mon"}
MonLabel == {"~m"}

NewEp == [mode |-> "new", k |-> 0, rd |-> FALSE, sd |-> FALSE, label |-> {}, aff |-> FALSE,
          token |-> "", types |-> {}, gen |-> 0]
MonEp == [NewEp EXCEPT !.label = MonLabel, !.types = {"A", "B", "C", "Y"}]

Init ==
  /\ W = [now |-> 0, ctl |-> NoCtl(0), eps |-> <<>>, buf |-> <<>>,
          box |-> [e \in AllEps |-> <<>>],
          ep |-> [e \in AllEps |-> IF e = "mon" THEN MonEp ELSE NewEp]]
  /\ hist = <<>>
  /\ nmsg = 0
  /\ done = FALSE

Present(e) == W.ep[e].mode \in {"client", "server"}

\* mon follows every election at once
WithMon(V) ==
  IF V.ctl.up /\ ~Linked(V, "mon")
  THEN Connect([V EXCEPT !.ep["mon"].token = V.ctl.token, !.ep["mon"].sd = TRUE], "mon")
  ELSE V

Accepts(e, m) == (IF m.ty = "BadA" THEN "A" ELSE IF m.ty = "BadY" THEN "Y" ELSE m.ty) \in W.ep[e].types
FirstAccepted(e, box) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(box) THEN 0 ELSE IF Accepts(e, box[i]) THEN i ELSE go(i + 1)
  IN  go(1)
Bad(m) == m.ty \in {"BadA", "BadY"}
Outcome(m) == IF Bad(m) THEN <<"d">> ELSE <<"m", m.id, m.ty, m.from>>
\* everything e would still receive
Drain(e) == LET b == SelectSeq(W.box[e], LAMBDA m : Accepts(e, m))
            IN  [i \in 1..Len(b) |-> Outcome(b[i])]

Rec(r) == hist' = Append(hist, r)

JoinAs(e, lab, tok, aff, ty) ==
  /\ W.ep[e].mode \in {"new", "gone"}
  /\ LET V == [W EXCEPT !.ep[e].label = lab, !.ep[e].token = tok, !.ep[e].aff = aff,
                        !.ep[e].types = ty, !.ep[e].sd = TRUE]
         out == JoinOutcome(V, e)
     IN  /\ W' = IF out \in {"connect", "elect"} THEN WithMon(JoinWorld(V, e)) ELSE W
         /\ Rec([op |-> "join", e |-> e, label |-> lab, token |-> tok, aff |-> aff,
                 types |-> ty, exp |-> out])
  /\ UNCHANGED nmsg
Join(e) ==
  /\ "join" \in Ops /\ Chance("join")
  /\ W.ep[e].mode \in {"new", "gone"}
  /\ \E lab \in Pick(Labels), tok \in Pick(Tokens), aff \in Pick(Affs), ty \in Pick(TypeSets) :
       JoinAs(e, lab, tok, aff, ty)

\* sending from a lost connection joins again first
SendBase(e) ==
  IF W.ep[e].mode = "server" \/ Linked(W, e) THEN W ELSE Rejoin(W, e)

CanSend(e) ==
  /\ Present(e) /\ W.ep[e].sd
  /\ W.ep[e].mode = "server" \/ Linked(W, e) \/ JoinOutcome(W, e) # "none"
SendAs(e, sel, mode, ttl, ty) ==
  LET id == nmsg + 1
      m == [id |-> id, from |-> e, sel |-> sel, mode |-> mode, ttl |-> ttl, ty |-> ty]
      V == SendBase(e)
      ok == V.ep[e].mode = "server" \/ Linked(V, e)
  IN  /\ CanSend(e)
      /\ W' = WithMon(IF ok THEN Handle(V, m) ELSE V)
      /\ Rec([op |-> "send", e |-> e, id |-> id, sel |-> sel, mode |-> mode, ttl |-> ttl,
              ty |-> ty, exp |-> IF ok THEN "ok" ELSE JoinOutcome(W, e),
              elects |-> V.ctl.gen # W.ctl.gen,
              to |-> IF ok THEN Receivers(V, m) ELSE {}])
      /\ nmsg' = id
Send(e) ==
  /\ "send" \in Ops /\ Chance("send")
  /\ CanSend(e)
  /\ \E sel \in Pick(Sels), mode \in Pick(Modes), ttl \in Pick(Ttls), ty \in Pick(Tys) :
       SendAs(e, sel, mode, ttl, ty)

Recv(e) ==
  /\ "recv" \in Ops /\ Chance("recv")
  /\ Present(e) /\ W.ep[e].rd
  /\ LET i == FirstAccepted(e, W.box[e])
         lost == W.ep[e].mode = "client" /\ ~Linked(W, e)
     IN  IF i > 0
         THEN /\ W' = [W EXCEPT !.box[e] = SubSeq(@, i + 1, Len(@))]
              /\ Rec([op |-> "recv", e |-> e, exp |-> Outcome(W.box[e][i]), elects |-> FALSE, rejoins |-> FALSE])
         ELSE IF ~lost
         THEN /\ W' = [W EXCEPT !.box[e] = <<>>]
              /\ Rec([op |-> "recv", e |-> e, exp |-> <<"t">>, elects |-> FALSE, rejoins |-> FALSE])
         ELSE LET V == WithMon(Rejoin(W, e))
                  out == JoinOutcome(W, e)
                  j == FirstAccepted(e, V.box[e])
              IN  /\ W' = [V EXCEPT !.box[e] = IF j > 0 THEN SubSeq(@, j + 1, Len(@)) ELSE <<>>]
                  /\ Rec([op |-> "recv", e |-> e, elects |-> V.ctl.gen # W.ctl.gen,
                          rejoins |-> Linked(V, e),
                          exp |-> IF out \in {"token", "version"} THEN <<out>>
                                  ELSE IF j > 0 THEN Outcome(V.box[e][j]) ELSE <<"t">>])
  /\ UNCHANGED nmsg

\* leaving: the halves can be dropped in any order
Left(V, e) == IF ~V.ep[e].rd /\ ~V.ep[e].sd
              THEN [V EXCEPT !.ep[e].mode = IF @ = "server" THEN "server" ELSE "gone"] ELSE V
DropR(e) ==
  /\ "dropr" \in Ops /\ Chance("dropr")
  /\ Present(e) /\ W.ep[e].rd
  /\ W' = Left(CloseReader(W, e), e)
  /\ Rec([op |-> "dropr", e |-> e])
  /\ UNCHANGED nmsg
DropS(e) ==
  /\ "drops" \in Ops /\ Chance("drops")
  /\ Present(e) /\ W.ep[e].sd
  /\ W' = Left([W EXCEPT !.ep[e].sd = FALSE], e)
  /\ Rec([op |-> "drops", e |-> e])
  /\ UNCHANGED nmsg

AdvBy(t) ==
  /\ W' = [W EXCEPT !.now = @ + t]
  /\ Rec([op |-> "adv", t |-> t])
  /\ UNCHANGED nmsg
Adv ==
  /\ "adv" \in Ops /\ Chance("adv")
  /\ hist # <<>> /\ hist[Len(hist)].op # "adv"
  /\ \E t \in Pick(Advs) : AdvBy(t)

\* the process of e dies; messages still unread then are outside this specification
KillEp(e) ==
  /\ "kill" \in Ops /\ Chance("kill")
  /\ Present(e)
  /\ W.ctl.owner = e => \A f \in Eps \ {e} : W.ep[f].mode = "client" => W.box[f] = <<>>
  /\ W' = IF W.ctl.up /\ W.ctl.owner = e
          THEN LET V == Kill(W, e) IN [V EXCEPT !.box["mon"] = <<>>]
          ELSE Kill(W, e)
  /\ Rec([op |-> "kill", e |-> e, host |-> W.ctl.up /\ W.ctl.owner = e,
          mon |-> LET b == W.box["mon"] IN [i \in 1..Len(b) |-> Outcome(b[i])]])
  /\ UNCHANGED nmsg

\* a new life for a dead process' name
Reborn(e) ==
  /\ "kill" \in Ops
  /\ W.ep[e].mode = "dead"
  /\ W' = [W EXCEPT !.ep[e].mode = "new"]
  /\ Rec([op |-> "reborn", e |-> e])
  /\ UNCHANGED nmsg

Finals ==
  LET R == {f \in AllEps : W.ep[f].rd /\ (W.ep[f].mode = "server" \/ Linked(W, f))}
  IN  [e \in R |-> Drain(e)]

\* printed once per complete behaviour
Finish ==
  /\ Len(hist) = D /\ ~done
  /\ done' = TRUE
  /\ PrintT("@@" \o ToJson([hist |-> hist, finals |-> Finals]))
  /\ UNCHANGED <<W, hist, nmsg>>

Step ==
  \/ \E e \in Eps : Join(e)
  \/ \E e \in Eps : Send(e)
  \/ \E e \in Eps : Recv(e)
  \/ \E e \in Eps : DropR(e)
  \/ \E e \in Eps : DropS(e)
  \/ \E e \in Eps : KillEp(e)
  \/ \E e \in Eps : Reborn(e)
  \/ Adv
Next == (Len(hist) < D /\ Step /\ UNCHANGED done) \/ Finish

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Boxes(e) == {W.box[e][i] : i \in 1..Len(W.box[e])}

\* C01, C02, C03 at the moment of routing: recorded in "to"
RoutingSound ==
  \A i \in 1..Len(hist) :
     (hist[i].op = "send" /\ hist[i].mode = "u") => Cardinality(hist[i].to) <= 1
OnlyMatching == \A e \in AllEps : \A m \in Boxes(e) : Eval(m.sel, W.ep[e].label)
InOrderOnce ==
  \A e \in AllEps : \A i, j \in 1..Len(W.box[e]) :
     i < j => W.box[e][i].id # W.box[e][j].id
UnicastOnce ==
  \A e, f \in AllEps : \A m \in Boxes(e) \cap Boxes(f) : e # f => m.mode = "m"
\* C05
NothingExpired ==
  \A i \in 1..Len(W.buf) : W.buf[i].exp > W.now \/ hist[Len(hist)].op # "send"
BufferedHadNoReceiver ==
  \A i \in 1..Len(W.buf) : W.buf[i].m.ttl > 0 /\ \A e \in AllEps : W.buf[i].m \notin Boxes(e)

=============================================================================
