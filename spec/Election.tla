------------------------------ MODULE Election ------------------------------
(* How endpoints that join one identifier at the same time end up on one bus.
   The name of the bus is bound to at most one socket; connecting to it succeeds
   only when that socket listens.  Each step is one system call.  A process may
   die at any step, which frees the name it has bound.

   pc[p]: "connect" "bind" "listen"  about to do that
          "host" "member"            on the bus
          "refused"                  may not host and found nobody (tries again later)
          "dead"
   bus[p]: the process that hosts the bus p is on                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs,
          Affs,    \* sets of processes that may host
          Kills,   \* how many processes may die
          D        \* length of schedules written out (0: none)

VARIABLES aff, pc, bound, listening, bus, hist
vars == <<aff, pc, bound, listening, bus, hist>>

Init == /\ aff \in Affs
        /\ pc = [p \in Procs |-> "connect"]
        /\ bound = "" /\ listening = FALSE
        /\ bus = [p \in Procs |-> ""]
        /\ hist = <<>>

Log(p, c, r) == hist' = IF D = 0 THEN hist ELSE Append(hist, <<p, c, r>>)
To(p, s) == pc' = [pc EXCEPT ![p] = s]

Connect(p) ==
  /\ pc[p] \in {"connect", "refused"}
  /\ IF listening
     THEN To(p, "member") /\ bus' = [bus EXCEPT ![p] = bound] /\ Log(p, "connect", "ok")
     ELSE To(p, IF p \in aff THEN "bind" ELSE "refused") /\ UNCHANGED bus /\ Log(p, "connect", "refused")
  /\ UNCHANGED <<aff, bound, listening>>
Bind(p) ==
  /\ pc[p] = "bind"
  /\ IF bound = ""
     THEN bound' = p /\ To(p, "listen") /\ Log(p, "bind", "ok")
     ELSE UNCHANGED bound /\ To(p, "connect") /\ Log(p, "bind", "inuse")
  /\ UNCHANGED <<aff, listening, bus>>
Listen(p) ==
  /\ pc[p] = "listen"
  /\ listening' = TRUE /\ To(p, "host") /\ bus' = [bus EXCEPT ![p] = p] /\ Log(p, "listen", "ok")
  /\ UNCHANGED <<aff, bound>>
\* before it is on a bus
Kill(p) ==
  /\ pc[p] \in {"connect", "bind", "listen", "refused"}
  /\ Cardinality({q \in Procs : pc[q] = "dead"}) < Kills
  /\ To(p, "dead") /\ Log(p, "kill", "")
  /\ IF bound = p THEN bound' = "" ELSE UNCHANGED bound
  /\ UNCHANGED <<aff, listening, bus>>

Settled == \A p \in Procs : pc[p] \in {"host", "member", "dead"} \/ (pc[p] = "refused" /\ ~listening /\ \A q \in aff : pc[q] = "dead")
Out == PrintT("@@" \o ToJson([aff |-> aff, hist |-> hist,
                              hosts |-> {p \in Procs : pc[p] = "host"}, dead |-> {p \in Procs : pc[p] = "dead"}]))
Step(p) == Connect(p) \/ Bind(p) \/ Listen(p)
Next == /\ D = 0 \/ Len(hist) < D
        /\ \E p \in Procs : (Step(p) \/ Kill(p))
        /\ (D > 0 /\ (Len(hist') = D \/ Settled') => Out')
Go == ~Settled /\ Next
Spec == Init /\ [][Go]_vars
Fair == Spec /\ \A p \in Procs : WF_vars(Step(p) /\ Go)

OneHost == Cardinality({p \in Procs : pc[p] = "host"}) <= 1
OnlyAllowed == \A p \in Procs : pc[p] \in {"bind", "listen", "host"} => p \in aff
OneBus == \A p, q \in Procs : bus[p] # "" /\ bus[q] # "" => bus[p] = bus[q]
NameKept == \A p \in Procs : pc[p] \in {"host", "listen"} => bound = p
\* whoever lives gets onto the bus, if there is somebody to host it
AllJoin == <>(Settled)
=============================================================================
