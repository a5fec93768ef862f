----------------------------- MODULE BusScript -----------------------------
(* What the specification expects of given histories, too long or with too many
   endpoints to be found by chance.                                          *)
EXTENDS BusSeq, Sequences
CONSTANT File
Scripts == JsonDeserialize(File)
VARIABLES k, pc
svars == <<W, hist, nmsg, done, k, pc>>

Str(s) == {s[i] : i \in 1..Len(s)}
Do(x) ==
  CASE x.op = "join"  -> JoinAs(x.e, Str(x.label), x.token, x.aff, Str(x.types))
    [] x.op = "send"  -> SendAs(x.e, x.sel, x.mode, x.ttl, x.ty)
    [] x.op = "recv"  -> Recv(x.e)
    [] x.op = "dropr" -> DropR(x.e)
    [] x.op = "drops" -> DropS(x.e)
    [] x.op = "kill"  -> KillEp(x.e)
    [] x.op = "killhost" -> KillEp(W.ctl.owner)
    [] x.op = "adv"   -> AdvBy(x.t)

\* "readall": as many times as there is something
More(x) == x.op = "readall" /\ FirstAccepted(x.e, W.box[x.e]) > 0
\* "quiesce": every client reads what there is
Busy(x) == IF x.op = "quiesce" THEN {e \in Eps : Present(e) /\ W.ep[e].rd /\ W.ep[e].mode = "client" /\ FirstAccepted(e, W.box[e]) > 0} ELSE {}
\* what is only to be done if it can be
CanDo(x) ==
  CASE x.op = "join"  -> W.ep[x.e].mode \in {"new", "gone"}
    [] x.op = "send"  -> CanSend(x.e)
    [] x.op = "recv"  -> Present(x.e) /\ W.ep[x.e].rd
    [] x.op = "dropr" -> Present(x.e) /\ W.ep[x.e].rd
    [] x.op = "killhost" -> W.ctl.up /\ Present(W.ctl.owner)
    [] OTHER -> TRUE
Skip(x) == x.op \in {"readall", "quiesce"} \/ ("try" \in DOMAIN x /\ ~CanDo(x))
SInit == Init /\ k \in DOMAIN Scripts /\ pc = 1
SNext ==
  /\ UNCHANGED k
  /\ IF pc <= Len(Scripts[k])
     THEN LET x == Scripts[k][pc]
          IN  /\ UNCHANGED done
              /\ IF Busy(x) # {} THEN Recv(CHOOSE e \in Busy(x) : TRUE) /\ UNCHANGED pc
                 ELSE IF More(x) THEN Recv(x.e) /\ UNCHANGED pc
                 ELSE /\ pc' = pc + 1
                      /\ IF Skip(x) THEN UNCHANGED <<W, hist, nmsg>> ELSE Do(x)
     ELSE /\ ~done /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([k |-> k, hist |-> hist, finals |-> Finals]))
          /\ UNCHANGED <<W, hist, nmsg, pc>>
Where == <<k, pc, Len(hist), done>>
SSpec == SInit /\ [][SNext]_svars
\* the messages themselves are checked where they are few
SoundSmall ==
  Len(hist) > 60 \/ (OnlyMatching /\ UnicastOnce /\ InOrderOnce /\ RoutingSound /\ BufferedHadNoReceiver)
=============================================================================
