----------------------------- MODULE RecvTiming -----------------------------
(* When recv returns.  One receiving endpoint E, another endpoint that sends to it,
   and the process hosting the bus, which may be E's, and may die.  Time is in
   halves of a tick: calls begin and end at even instants, whatever else happens
   does so at odd ones, so that nothing depends on who is faster.

   Every behaviour is printed with the result of every call and the instant at
   which it returns.                                                          *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Hosts,     \* E may host the bus from the beginning, or somebody else does
          Affs,      \* E may take over
          Waits,     \* timeouts in ticks; 99: none
          D,         \* halves of a tick
          Chance(_), Pick(_)

VARIABLES now, up, self, aff, link, maybe, box, call, n, calls, evs, acted, first, done,
          sq,        \* since when (plus one) somebody listens who does not accept, 0: nobody does
          stuck      \* E has connected to it and waits for an answer
vars == <<now, up, self, aff, link, maybe, box, call, n, calls, evs, acted, first, done, sq, stuck>>

NoCall == [on |-> FALSE, t0 |-> 0, dl |-> 0, k |-> 0]
Forever == 1000000

Init ==
  /\ now = 0 /\ self \in Pick(Hosts) /\ up = TRUE /\ aff \in Pick(Affs) /\ link = TRUE /\ maybe = FALSE
  /\ box = <<>> /\ call = NoCall /\ n = 0 /\ calls = <<>> /\ evs = <<>> /\ acted = FALSE /\ first = self /\ done = FALSE
  /\ sq = 0 /\ stuck = FALSE

Even == now % 2 = 0
Ret(c, out, id) == calls' = Append(calls, [t0 |-> c.t0, k |-> c.k, out |-> out, id |-> id, at |-> now])
Ev(op) == evs' = Append(evs, [at |-> now, op |-> op, id |-> n'])

\* the messages before the first that makes recv return are skipped
Stops(m) == m.ty # "B"
Firsts(b) == {i \in 1..Len(b) : Stops(b[i]) /\ \A j \in 1..(i - 1) : ~Stops(b[j])}

\* E notices that its bus is gone
Rejoin(to) ==
  IF up THEN link' = TRUE /\ UNCHANGED <<up, self>>
  ELSE IF aff THEN self' = TRUE /\ up' = TRUE /\ link' = TRUE
  ELSE UNCHANGED <<up, self, link>>

Call ==
  /\ Even /\ ~acted /\ ~call.on /\ Chance("call") /\ now < D
  /\ \E k \in Pick(IF sq > 0 THEN Waits \ {99} ELSE Waits) :
       LET c == [on |-> TRUE, t0 |-> now, k |-> k, dl |-> IF k = 99 THEN Forever ELSE now + 2 * k]
       IN  IF Firsts(box) # {}
           THEN LET i == CHOOSE i \in Firsts(box) : TRUE
                IN  /\ Ret(c, box[i].ty, box[i].id)
                    /\ box' = SubSeq(box, i + 1, Len(box)) /\ UNCHANGED <<call, link, up, self, stuck>>
           ELSE IF ~link /\ sq > 0
           THEN call' = c /\ stuck' = TRUE /\ UNCHANGED <<calls, link, up, self, box>>
           ELSE /\ box' = <<>> /\ UNCHANGED stuck
                /\ IF link THEN UNCHANGED <<link, up, self>> ELSE Rejoin(k)
                /\ IF k = 0 THEN Ret(c, "timeout", 0) /\ UNCHANGED call
                   ELSE call' = c /\ UNCHANGED calls
  /\ acted' = TRUE
  /\ UNCHANGED <<now, aff, maybe, n, evs, first, done, sq>>

Expire ==
  /\ Even /\ call.on /\ call.dl = now /\ ~stuck
  \* it tries again to join, at the latest
  /\ IF ~link /\ sq > 0 THEN stuck' = TRUE /\ UNCHANGED <<calls, call>>
     ELSE Ret(call, "timeout", 0) /\ call' = NoCall /\ UNCHANGED stuck
  /\ IF maybe THEN link' = TRUE /\ UNCHANGED <<up, self>>
     ELSE IF ~link /\ ~up /\ sq = 0 THEN Rejoin(call.k)
     ELSE UNCHANGED <<link, up, self>>
  /\ maybe' = FALSE /\ acted' = TRUE
  /\ UNCHANGED <<now, aff, box, n, evs, first, done, sq>>

\* somebody binds the identifier of the bus that is gone and does not accept
Squat ==
  /\ ~Even /\ ~acted /\ ~up /\ sq = 0 /\ Chance("squat")
  /\ ~(call.on /\ call.dl = Forever)
  /\ sq' = now + 1 /\ UNCHANGED n /\ Ev("squat") /\ acted' = TRUE
  /\ UNCHANGED <<now, up, self, aff, link, maybe, box, call, calls, first, done, stuck>>

Leave ==
  /\ ~Even /\ ~acted /\ sq > 0
  /\ sq' = 0 /\ stuck' = FALSE /\ UNCHANGED n /\ Ev("leave") /\ acted' = TRUE
  /\ IF stuck /\ now > call.dl THEN Ret(call, "timeout", 0) /\ call' = NoCall
     ELSE UNCHANGED <<call, calls>>
  /\ UNCHANGED <<now, up, self, aff, link, maybe, box, first, done>>

\* a message of that type for E
Send(ty) ==
  /\ ~Even /\ ~acted /\ up /\ ~maybe /\ Chance("send")
  /\ n' = n + 1 /\ Ev(ty)
  /\ IF ~link THEN UNCHANGED <<box, calls, call>>
     ELSE IF call.on /\ ty # "B"
     THEN Ret(call, ty, n') /\ call' = NoCall /\ UNCHANGED box
     ELSE IF call.on THEN UNCHANGED <<box, calls, call>>
     ELSE box' = Append(box, [ty |-> ty, id |-> n']) /\ UNCHANGED <<calls, call>>
  /\ acted' = TRUE
  /\ UNCHANGED <<now, up, self, aff, link, maybe, first, done, sq, stuck>>

\* several messages that E does not take, one after the other; several signals
Noise(what) ==
  /\ ~Even /\ ~acted /\ Chance("noise")
  /\ what = "flood" => up /\ ~maybe /\ call.on
  /\ UNCHANGED n /\ Ev(what) /\ acted' = TRUE
  /\ UNCHANGED <<now, up, self, aff, link, maybe, box, call, calls, first, done, sq, stuck>>

Die ==
  /\ ~Even /\ ~acted /\ up /\ ~self /\ box = <<>> /\ Chance("die")
  /\ UNCHANGED n /\ Ev("die") /\ acted' = TRUE
  /\ IF call.on /\ aff THEN self' = TRUE /\ up' = TRUE /\ UNCHANGED link
     ELSE up' = FALSE /\ link' = FALSE /\ UNCHANGED self
  /\ maybe' = FALSE
  /\ UNCHANGED <<now, aff, box, call, calls, first, done, sq, stuck>>

NewHost ==
  /\ ~Even /\ ~acted /\ ~up /\ sq = 0 /\ Chance("host")
  /\ ~(call.on /\ call.dl = Forever)
  /\ up' = TRUE /\ UNCHANGED n /\ Ev("host") /\ acted' = TRUE
  /\ maybe' = call.on
  /\ UNCHANGED <<now, self, aff, link, box, call, calls, first, done, sq, stuck>>

Tick ==
  /\ ~(call.on /\ call.dl = now /\ ~stuck)
  /\ sq > 0 /\ ~Even => now - sq < 7 \/ acted
  /\ now < D \/ (call.on /\ call.dl < Forever) \/ sq > 0
  /\ now' = now + 1 /\ acted' = FALSE
  /\ UNCHANGED <<up, self, aff, link, maybe, box, call, n, calls, evs, first, done, sq, stuck>>

Finish ==
  /\ ~done /\ now >= D /\ Even /\ sq = 0 /\ (~call.on \/ call.dl = Forever)
  /\ done' = TRUE
  /\ PrintT("@@" \o ToJson([evs |-> evs, calls |-> calls, aff |-> aff, self |-> first, end |-> now,
                            pending |-> IF call.on THEN <<call.t0>> ELSE <<>>,
                            left |-> [i \in 1..Len(box) |-> <<box[i].ty, box[i].id>>]]))
  /\ UNCHANGED <<now, up, self, aff, link, maybe, box, call, n, calls, evs, acted, first, sq, stuck>>

Next == ~done /\ (Call \/ Expire \/ (\E ty \in {"A", "B", "bad"} : now < D /\ Send(ty)) \/ (\E w \in {"flood", "signals"} : now < D /\ Noise(w))
                  \/ (now < D /\ (Die \/ NewHost \/ Squat)) \/ (Chance("leave") /\ Leave) \/ (now - sq >= 7 /\ Leave) \/ Tick \/ Finish)
Spec == Init /\ [][Next]_vars

(* properties *)
Waited(c) == \E e \in 1..Len(evs) : evs[e].op = "leave" /\ evs[e].at = c.at
Punctual == \A i \in 1..Len(calls) :
  LET c == calls[i]
      \* but for the answer of somebody who listens and dies
      end == c.t0 + 2 * c.k
  IN  /\ c.out = "timeout" => c.k # 99 /\ (c.at = end \/ (c.at > end /\ Waited(c)))
      /\ c.at >= c.t0 /\ (c.k # 99 /\ c.out # "timeout" => c.at <= end)
InOrder == \A i, j \in 1..Len(calls) : i < j /\ calls[i].id > 0 /\ calls[j].id > 0 => calls[i].id < calls[j].id
\* what arrives while somebody waits is returned at that instant
AtOnce == \A i \in 1..Len(calls) : calls[i].id > 0 =>
             \A e \in 1..Len(evs) : evs[e].op \in {"A", "bad"} /\ evs[e].id = calls[i].id => calls[i].at = IF evs[e].at > calls[i].t0 THEN evs[e].at ELSE calls[i].t0
=============================================================================
