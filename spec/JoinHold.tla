----------------------------- MODULE JoinHold ------------------------------
(* One endpoint joins a bus, step by step, with what the two processes acquire
   and release, and at most one fault: a call that fails, on either side, or the
   death of the joining process before or after a call.

   "conn" is a side of the connection to the bus, "read"/"write" the two ends of
   the channel back.  The write end travels in the connect message.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Outs,      \* what the host is to answer: "ok", "token", "version"
          Faults     \* records [who, call, what]; what: "errno", "before", "after"

VARIABLES pc, c, h, wire, fault, out, up, hpc, sent
vars == <<pc, c, h, wire, fault, out, up, hpc, sent>>
\* pc:  "connect" "socketpair" "sendmsg" "recvmsg" "up" "failed" "dead" "left"
\* hpc: "idle" "accepted" "got" "done"
\* wire: what the connection carries: <<>>, <<"conn">> in the backlog, <<"frame">>
None == [who |-> "none", call |-> "", what |-> ""]
Calls == <<"connect", "socketpair", "sendmsg", "recvmsg">>

Init == /\ pc = "connect" /\ c = {} /\ h = {} /\ wire = {} /\ up = FALSE /\ hpc = "idle" /\ sent = ""
        /\ fault \in Faults \cup {None} /\ out \in Outs

Hits(who, call, what) == fault = [who |-> who, call |-> call, what |-> what]
Fail == /\ fault' = None /\ c' = {} /\ sent' = ""
        /\ pc' = "failed"      \* trying again is another join
Die == pc' = "dead" /\ c' = {} /\ fault' = None /\ UNCHANGED sent

ClientDo(call) ==
  CASE call = "connect"    -> c' = {"conn"} /\ wire' = {"conn"} /\ pc' = "socketpair" /\ UNCHANGED <<sent>>
    [] call = "socketpair" -> c' = c \cup {"read", "write"} /\ pc' = "sendmsg" /\ UNCHANGED <<wire, sent>>
    [] call = "sendmsg"    -> c' = c \ {"write"} /\ wire' = wire \cup {"frame"} /\ pc' = "recvmsg" /\ UNCHANGED sent
    [] call = "recvmsg"    -> /\ sent # ""
                              /\ IF sent = "ok" THEN pc' = "up" /\ UNCHANGED c ELSE pc' = "failed" /\ c' = {}
                              /\ UNCHANGED <<wire, sent>>
Client ==
  /\ pc \in {Calls[i] : i \in 1..4}
  /\ hpc \in {"idle", "accepted", "got"} \/ pc = "recvmsg"
  /\ IF Hits("client", pc, "before") THEN Die /\ UNCHANGED wire
     ELSE IF Hits("client", pc, "errno") THEN Fail /\ wire' = {}
     ELSE IF Hits("client", pc, "after")
       THEN /\ pc = "recvmsg" => sent # ""
            /\ Die
            /\ wire' = CASE pc = "connect" -> {"conn"} [] pc = "sendmsg" -> wire \cup {"frame"} [] OTHER -> wire
     ELSE ClientDo(pc) /\ UNCHANGED fault
  /\ up' = (pc' = "up")
  /\ UNCHANGED <<h, hpc, out>>

ClientGone == pc \in {"dead", "failed", "left"} \/ "conn" \notin c
Host ==
  \/ /\ hpc = "idle" /\ "conn" \in wire
     /\ IF Hits("host", "accept", "errno") THEN fault' = None /\ UNCHANGED <<hpc, h, wire>>
        ELSE hpc' = "accepted" /\ h' = {"conn"} /\ UNCHANGED <<fault, wire>>
     /\ UNCHANGED sent
  \/ /\ hpc = "accepted" /\ "frame" \in wire
     /\ wire' = {}
     /\ IF Hits("host", "recvmsg", "errno") THEN fault' = None /\ hpc' = "done" /\ h' = {} /\ sent' = "eof"
        ELSE hpc' = "got" /\ h' = h \cup {"write"} /\ UNCHANGED <<fault, sent>>
  \/ /\ hpc = "got"
     /\ IF Hits("host", "sendmsg", "errno") THEN fault' = None /\ h' = h \ {"write"} /\ sent' = "eof"
        ELSE IF out = "ok" /\ "read" \in c THEN UNCHANGED h /\ sent' = "ok" /\ UNCHANGED fault
        ELSE h' = h \ {"write"} /\ sent' = out /\ UNCHANGED fault
     /\ hpc' = "done" /\ UNCHANGED wire
HostStep == Host /\ UNCHANGED <<pc, c, out, up>>

\* the host notices that the connection is closed
HostEof ==
  /\ ClientGone /\ "conn" \in h /\ "frame" \notin wire
  /\ hpc \in {"accepted", "done"}
  /\ h' = h \ {"conn"} /\ hpc' = "done" /\ UNCHANGED <<pc, c, wire, fault, out, up, sent>>
\* and, within half a minute of activity, that nobody reads
HostDetect ==
  /\ hpc = "done" /\ "write" \in h /\ "read" \notin c
  /\ h' = h \ {"write"} /\ UNCHANGED <<pc, c, wire, fault, out, up, hpc, sent>>
\* what is sent is still read after the sender is gone
Leave == /\ pc = "up" /\ pc' = "left" /\ c' = {} /\ up' = FALSE
         /\ UNCHANGED <<h, wire, fault, out, hpc, sent>>

Next == Client \/ HostStep \/ HostEof \/ HostDetect \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Quiet == pc \in {"failed", "dead", "left"} /\ ~ENABLED Next
\* whatever happened, nothing is left behind
NothingLeft == Quiet => c = {} /\ h = {}
EventuallyQuiet == <>[](c = {} /\ h = {})
OnlyUpIsUp == up => c = {"conn", "read"}
\* the faults and answers that the driver has to go through
ASSUME PrintT("@@" \o ToJson([faults |-> Faults \cup {None}, outs |-> Outs]))
=============================================================================
