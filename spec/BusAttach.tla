----------------------------- MODULE BusAttach ------------------------------
(* Objects and memory regions: who refers to what, through any chain of
   create, clone, attach, route, buffer, expire, receive, keep, discard, drop.

   A handle is one value in one process that refers to a resource.  A message
   carries the resources attached to it in two lists.  The reference count of a
   memory region is the number of handles to it plus one for every copy in a
   message that waits in an inbox or in the buffer of the bus.               *)
EXTENDS BusSeq

CONSTANTS Ns,       \* numbers of attachments
          MaxH,     \* bound on handles
          MaxRes

VARIABLES H,        \* handle number -> [e, r]  (process and resource)
          res,      \* resources in order of creation: [k |-> "o" | "r", val]
          nh        \* handles ever made
avars == <<vars, H, res, nh>>

AInit == Init /\ H = <<>> /\ res = <<>> /\ nh = 0

Cyc(s, n) == IF s = <<>> THEN <<>> ELSE [i \in 1..n |-> s[((i - 1) % Len(s)) + 1]]
CountIn(s, r) == Cardinality({i \in 1..Len(s) : s[i] = r})
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
InMsgs(V, r) ==
  SumSeq([i \in 1..Len(V.buf) |-> CountIn(V.buf[i].m.r, r)])
  + SumSeq(LET es == SetToSeq(Eps)  \* "mon" reads at once
           IN  [j \in 1..Len(es) |->
                  SumSeq([i \in 1..Len(V.box[es[j]]) |-> CountIn(V.box[es[j]][i].r, r)])])
Refs(V, HH, r) == Cardinality({h \in DOMAIN HH : HH[h].r = r}) + InMsgs(V, r)
RefList == [r \in 1..Len(res) |-> IF res[r].k = "r" THEN Refs(W, H, r) ELSE 0]

\* who keeps resource r: "must" somebody can still get at it; "may" it is in a
\* message that nobody will get, but which is not gone yet; "no"
InSeq(s, r) == \E i \in 1..Len(s) : s[i] = r
TakesBy(V, e, m) == ~Bad(m) /\ m.ty \in V.ep[e].types
Kept(V, HH, r) ==
  IF \/ \E h \in DOMAIN HH : HH[h].r = r
     \/ \E i \in 1..Len(V.buf) : V.buf[i].exp > V.now /\ InSeq(V.buf[i].m.o, r)
     \/ \E e \in Eps : \E i \in 1..Len(V.box[e]) : TakesBy(V, e, V.box[e][i]) /\ InSeq(V.box[e][i].o, r)
  THEN "must"
  ELSE IF \/ \E i \in 1..Len(V.buf) : InSeq(V.buf[i].m.o, r)
          \/ \E e \in Eps : \E i \in 1..Len(V.box[e]) : InSeq(V.box[e][i].o, r)
  THEN "may" ELSE "no"
KeptList(V, HH) == [r \in 1..Len(res) |-> IF res[r].k = "o" THEN Kept(V, HH, r) ELSE "r"]

\* the counts that hold before the operation is executed
ARec(r) == hist' = Append(hist, r @@ [refs |-> RefList, kept |-> KeptList(W, H)])
Own(e, k) == {h \in DOMAIN H : H[h].e = e /\ res[H[h].r].k = k}
Add(HH, h, e, r) == [x \in DOMAIN HH \cup {h} |-> IF x = h THEN [e |-> e, r |-> r] ELSE HH[x]]
Del(HH, S) == [x \in DOMAIN HH \ S |-> HH[x]]

New(e) ==
  /\ Len(res) < MaxRes /\ Cardinality(DOMAIN H) < MaxH /\ Chance("new")
  /\ \E k \in Pick({"o", "r"}) :
       /\ res' = Append(res, [k |-> k, val |-> 0])
       /\ H' = Add(H, nh + 1, e, Len(res) + 1)
       /\ nh' = nh + 1
       /\ ARec([op |-> "new", e |-> e, k |-> k, h |-> nh + 1, r |-> Len(res) + 1])
  /\ UNCHANGED <<W, nmsg, done>>

CloneH(e) ==
  /\ Cardinality(DOMAIN H) < MaxH /\ Chance("clone")
  /\ \E k \in Pick({"o", "r"}) : Own(e, k) # {} /\
     \E h \in Pick(Own(e, k)), how \in Pick({"clone", "from"}) :
       /\ H' = Add(H, nh + 1, e, H[h].r)
       /\ nh' = nh + 1
       /\ ARec([op |-> "clone", e |-> e, k |-> k, h |-> h, as |-> nh + 1, how |-> how])
  /\ UNCHANGED <<W, nmsg, res, done>>

DropH(e) ==
  /\ Chance("droph")
  /\ \E k \in Pick({"o", "r"}) : Own(e, k) # {} /\
     \E h \in Pick(Own(e, k)) :
       /\ H' = Del(H, {h})
       /\ ARec([op |-> "droph", e |-> e, k |-> k, h |-> h])
  /\ UNCHANGED <<W, nmsg, res, nh, done>>

\* all handles of a resource, in all processes, refer to the same thing
Write(e) ==
  /\ Chance("write")
  /\ \E k \in Pick({"o", "r"}) : Own(e, k) # {} /\
     \E h \in Pick(Own(e, k)) :
       LET v == (res[H[h].r].val % 250) + 1 IN
       /\ res' = [res EXCEPT ![H[h].r].val = v]
       /\ ARec([op |-> "write", e |-> e, k |-> k, h |-> h, v |-> v])
  /\ UNCHANGED <<W, nmsg, H, nh, done>>
Read(e) ==
  /\ Chance("read")
  /\ \E k \in Pick({"o", "r"}) : Own(e, k) # {} /\
     \E h \in Pick(Own(e, k)) :
       ARec([op |-> "read", e |-> e, k |-> k, h |-> h, v |-> res[H[h].r].val])
  /\ UNCHANGED <<W, nmsg, H, res, nh, done>>

\* one of them, as a sequence; none if there are none
Some(S) == IF S = {} THEN {<<>>} ELSE {<<h>> : h \in Pick(S)}

ASend(e) ==
  /\ Chance("send")
  /\ Present(e) /\ W.ep[e].sd
  /\ W.ep[e].mode = "server" \/ Linked(W, e)
  /\ \E sel \in Pick(Sels), mode \in Pick(Modes), ttl \in Pick(Ttls), ty \in Pick(Tys),
        no \in Pick(Ns), nr \in Pick(Ns), mv \in Pick({TRUE, FALSE}) :
     \E o1 \in Some(Own(e, "o")), o2 \in Some(Own(e, "o")), o3 \in Some(Own(e, "o")),
        r1 \in Some(Own(e, "r")), r2 \in Some(Own(e, "r")), r3 \in Some(Own(e, "r")) :
       LET ho == Cyc(o1 \o o2 \o o3, no)
           hr == Cyc(r1 \o r2 \o r3, nr)
           used == IF mv THEN {ho[i] : i \in 1..Len(ho)} \cup {hr[i] : i \in 1..Len(hr)} ELSE {}
           id == nmsg + 1
           m == [id |-> id, from |-> e, sel |-> sel, mode |-> mode, ttl |-> ttl, ty |-> ty,
                 o |-> [i \in 1..Len(ho) |-> H[ho[i]].r], r |-> [i \in 1..Len(hr) |-> H[hr[i]].r]]
       IN  /\ Len(ho) + Len(hr) <= 253
           /\ W' = Handle(W, m)
           /\ H' = Del(H, used)
           /\ nmsg' = id
           /\ ARec([op |-> "send", e |-> e, id |-> id, sel |-> sel, mode |-> mode, ttl |-> ttl, ty |-> ty,
                    ho |-> ho, hr |-> hr, mv |-> mv, exp |-> "ok", elects |-> FALSE, to |-> Receivers(W, m)])
  /\ UNCHANGED <<res, nh, done>>

ARecv(e) ==
  /\ Chance("recv")
  /\ Present(e) /\ W.ep[e].rd
  /\ W.ep[e].mode = "server" \/ Linked(W, e)
  /\ \E keep \in Pick({TRUE, FALSE}) :
     LET i == FirstAccepted(e, W.box[e])
         m == W.box[e][i]
         all == IF i = 0 \/ Bad(m) THEN <<>> ELSE m.o \o m.r
     IN  /\ W' = [W EXCEPT !.box[e] = IF i = 0 THEN <<>> ELSE SubSeq(@, i + 1, Len(@))]
         /\ H' = IF ~keep THEN H
                 ELSE [h \in DOMAIN H \cup {nh + j : j \in 1..Len(all)} |->
                         IF h \in DOMAIN H THEN H[h] ELSE [e |-> e, r |-> all[h - nh]]]
         /\ nh' = IF keep THEN nh + Len(all) ELSE nh
         /\ ARec([op |-> "recv", e |-> e, keep |-> keep, base |-> nh,
                  exp |-> IF i = 0 THEN <<"t">> ELSE Outcome(m),
                  o |-> IF i = 0 THEN <<>> ELSE m.o, r |-> IF i = 0 THEN <<>> ELSE m.r])
  /\ UNCHANGED <<nmsg, res, done>>

\* an operation of BusSeq
Base(a) == a /\ UNCHANGED <<H, res, nh, done>>
AJoin(e) ==
  /\ Chance("join")
  /\ W.ep[e].mode \in {"new", "gone"}
  /\ \E lab \in Pick(Labels), ty \in Pick(TypeSets) :
       LET V == [W EXCEPT !.ep[e].label = lab, !.ep[e].token = "tk", !.ep[e].aff = TRUE,
                          !.ep[e].types = ty, !.ep[e].sd = TRUE]
       IN  /\ W' = WithMon(JoinWorld(V, e))
           /\ ARec([op |-> "join", e |-> e, label |-> lab, token |-> "tk", aff |-> TRUE, types |-> ty,
                    exp |-> JoinOutcome(V, e)])
  /\ UNCHANGED nmsg
ADropR(e) == /\ Chance("dropr") /\ Present(e) /\ W.ep[e].rd
             /\ W' = Left(CloseReader(W, e), e) /\ ARec([op |-> "dropr", e |-> e]) /\ UNCHANGED nmsg
ADropS(e) == /\ Chance("drops") /\ Present(e) /\ W.ep[e].sd
             /\ W' = Left([W EXCEPT !.ep[e].sd = FALSE], e) /\ ARec([op |-> "drops", e |-> e]) /\ UNCHANGED nmsg
AAdv == /\ Chance("adv") /\ hist # <<>> /\ hist[Len(hist)].op # "adv"
        /\ \E t \in Pick(Advs) : W' = [W EXCEPT !.now = @ + t] /\ ARec([op |-> "adv", t |-> t])
        /\ UNCHANGED nmsg

AFinish ==
  /\ Len(hist) = D /\ ~done
  /\ done' = TRUE
  /\ PrintT("@@" \o ToJson([hist |-> hist, finals |-> Finals, refs |-> RefList]))
  /\ UNCHANGED <<W, hist, nmsg, H, res, nh>>

AStep ==
  \/ \E e \in Eps : New(e) \/ CloneH(e) \/ DropH(e) \/ Write(e) \/ Read(e) \/ ASend(e) \/ ARecv(e)
  \/ \E e \in Eps : Base(AJoin(e)) \/ Base(ADropR(e)) \/ Base(ADropS(e))
  \/ Base(AAdv)
ANext == (Len(hist) < D /\ AStep) \/ AFinish
ASpec == AInit /\ [][ANext]_avars

\* C11: without messages and handles nothing refers to a region
NoneLeft == \A r \in 1..Len(res) :
  Refs(W, H, r) = 0 => /\ \A h \in DOMAIN H : H[h].r # r
                       /\ \A e \in Eps : \A m \in Boxes(e) : \A i \in 1..Len(m.r) : m.r[i] # r
\* C10: a copy never carries anything its sender did not hold at some time
Known == \A e \in AllEps : \A m \in Boxes(e) : \A i \in 1..Len(m.o) : res[m.o[i]].k = "o"
=============================================================================
