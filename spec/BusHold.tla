------------------------------ MODULE BusHold ------------------------------
(* What every process has to hold, and who keeps an object alive, through any
   chain of joins (also refused ones), sends, buffering, expiry, receiving,
   skipping, undecodable messages, leaving and death of clients.

   The bus is hosted by endpoint "h", which has a process of its own.

   The descriptors a process has to hold are those of its handles and of the
   open halves of its endpoint; the host's also those of its clients' halves and
   of the attachments in messages that wait in its buffer or in its own inbox. *)
EXTENDS BusAttach

\* occurrences of resources of kind k in a sequence of messages
AttIn(ms, k) == SumSeq([i \in 1..Len(ms) |-> Len(IF k = "o" THEN ms[i].o ELSE ms[i].r)])
BufMsgs(V) == [i \in 1..Len(V.buf) |-> V.buf[i].m]
Handles(HH, e, k) == Cardinality({h \in DOMAIN HH : HH[h].e = e /\ res[HH[h].r].k = k})

LinkedIn(V, e) == V.ctl.up /\ V.ep[e].mode = "client" /\ V.ep[e].gen = V.ctl.gen
\* the halves of endpoints that the host serves; "rs", "r", "s"
Halves(V, e) == (IF V.ep[e].rd THEN "r" ELSE "") \o (IF V.ep[e].sd THEN "s" ELSE "")
Toks == 1..4  \* one of them is wrong
Served(V, hv) == Cardinality({e \in AllEps : LinkedIn(V, e) /\ Halves(V, e) = hv})

\* [halves, number of object handles, number of region handles]
Need(V, HH, e) ==
  LET own == e = V.ctl.owner
      x(k) == Handles(HH, e, k) + (IF own THEN AttIn(BufMsgs(V), k) + AttIn(V.box[e], k) ELSE 0)
  IN  [halves |-> IF V.ep[e].mode \in {"client", "server"} THEN Halves(V, e) ELSE "",
       o |-> x("o"), g |-> x("r"),
       served |-> IF own THEN [rs |-> Served(V, "rs"), r |-> Served(V, "r"), s |-> Served(V, "s")]
                  ELSE [rs |-> 0, r |-> 0, s |-> 0]]

\* after half a minute and one more message nothing else remains
Settle(V) == Maintain([V EXCEPT !.now = @ + 31,
                                !.eps = SelectSeq(V.eps, LAMBDA r : LiveReg(V, r))])
Needs(V, HH) == [e \in {f \in AllEps : V.ep[f].mode # "dead"} |-> Need(V, HH, e)]

HHostJoin ==
  /\ ~W.ctl.up
  /\ \E lab \in Pick(Labels), ty \in Pick(TypeSets) :
       LET V == [W EXCEPT !.ep["h"].label = lab, !.ep["h"].token = "tk", !.ep["h"].aff = TRUE,
                          !.ep["h"].types = ty, !.ep["h"].sd = TRUE]
       IN  /\ W' = WithMon(JoinWorld(V, "h"))
           /\ ARec([op |-> "join", e |-> "h", label |-> lab, token |-> "tk", aff |-> TRUE, types |-> ty, exp |-> "elect"])
  /\ UNCHANGED nmsg
HJoin(e) ==
  /\ Chance(IF VerOk(e, "h") THEN "join" ELSE "vjoin")
  /\ W.ep[e].mode \in {"new", "gone"}
  /\ \E lab \in Pick(Labels), ty \in Pick(TypeSets), t \in Pick(Toks), aff \in Pick(Affs) :
       LET tok == IF t = 1 THEN "no" ELSE "tk"
           V == [W EXCEPT !.ep[e].label = lab, !.ep[e].token = tok, !.ep[e].aff = aff,
                          !.ep[e].types = ty, !.ep[e].sd = TRUE]
           out == JoinOutcome(V, e)
       IN  /\ W' = IF out = "connect" THEN JoinWorld(V, e) ELSE W
           /\ ARec([op |-> "join", e |-> e, label |-> lab, token |-> tok, aff |-> aff, types |-> ty, exp |-> out])
  /\ UNCHANGED nmsg

\* a client dies, with its handles and everything it has not read
HKill(e) ==
  /\ Chance("kill")
  /\ W.ep[e].mode \in {"client", "gone"}
  /\ W' = Kill(W, e)
  /\ H' = [x \in {h \in DOMAIN H : H[h].e # e} |-> H[x]]
  /\ ARec([op |-> "kill", e |-> e, host |-> FALSE, mon |-> <<>>])
  /\ UNCHANGED <<nmsg, res, nh, done>>
HReborn(e) ==
  /\ W.ep[e].mode = "dead" /\ W' = [W EXCEPT !.ep[e].mode = "new"]
  /\ ARec([op |-> "reborn", e |-> e]) /\ UNCHANGED nmsg

HSettle ==
  /\ Chance("settle")
  /\ hist[Len(hist)].op # "settle"
  /\ W' = Settle(W)
  /\ ARec([op |-> "settle", need |-> Needs(W', H)])
  /\ UNCHANGED nmsg

HStep ==
  IF ~W.ctl.up THEN Base(HHostJoin)
  ELSE \/ \E e \in Eps : New(e) \/ CloneH(e) \/ DropH(e) \/ ASend(e) \/ ARecv(e)
       \/ \E e \in Eps \ {"h"} : Base(HJoin(e)) \/ Base(ADropS(e)) \/ HKill(e) \/ Base(HReborn(e))
       \/ \E e \in Eps : Base(ADropR(e))
       \/ Base(AAdv) \/ Base(HSettle)

HFinish ==
  /\ Len(hist) = D /\ ~done
  /\ done' = TRUE
  /\ PrintT("@@" \o ToJson([hist |-> hist, finals |-> Finals, kept |-> KeptList(W, H),
                            need |-> Needs(Settle(W), H), refs |-> RefList]))
  /\ UNCHANGED <<W, hist, nmsg, H, res, nh>>

HNext == (Len(hist) < D /\ HStep) \/ HFinish
HSpec == AInit /\ [][HNext]_avars

(* ------------------------------ properties ------------------------------ *)
\* what nobody has and no message carries is kept by nobody
NobodyKeeps == \A r \in 1..Len(res) :
  (res[r].k = "o" /\ Kept(W, H, r) = "no") =>
     /\ \A h \in DOMAIN H : H[h].r # r
     /\ \A e \in Eps : \A m \in Boxes(e) : ~InSeq(m.o, r)
\* nothing expires or leaves without its share of the host going with it
SettledServes ==
  LET V == Settle(W) IN
  \A e \in AllEps : W.ctl.up =>
     Need(V, H, W.ctl.owner).served.rs + Need(V, H, W.ctl.owner).served.r + Need(V, H, W.ctl.owner).served.s
       = Cardinality({f \in AllEps : Present(f) /\ f # W.ctl.owner})
SettledLive == LET V == Settle(W) IN \A i \in 1..Len(V.eps) : LiveReg(V, V.eps[i])
SettledBuf == LET V == Settle(W) IN \A i \in 1..Len(V.buf) : V.buf[i].exp > V.now
=============================================================================
