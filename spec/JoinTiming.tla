---------------------------- MODULE JoinTiming ----------------------------
(* How long join takes.  One joiner; what is bound to the identifier follows a
   script.  Time is in steps of a quarter of a second: the script changes at odd
   instants.  The joiner tries to join again and again, at most R after it failed;
   an attempt may be stuck for R while nobody accepts or nobody answers.

   For every script the outcomes that are allowed, and when, are printed.  The
   properties are checked for all scripts.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Timeouts,    \* 99: none
          First, Then, \* what is bound at first, and later
          Times,       \* when that changes
          R, N, Hz,    \* N: scripts to choose, 0: all of them; Hz: when to stop watching
          Attempts,    \* attempts without an answer before join gives up
          Tell

None == 99
(* free      nobody has bound the identifier
   host      a bus of the same version and token
   silent    a listener that does not accept; mute: accepts and reads, does not answer
   full      a listener whose backlog is full
   bound     bound, but nobody listens
   closer    accepts and closes                                                   *)
Occ == {"free", "host", "silent", "mute", "full", "bound", "closer"}
ASSUME First \subseteq Occ /\ Then \subseteq Occ

\* an occupant goes before another one comes
Tails(o) == {<<>>} \cup
  IF o = "free" THEN {<<[at |-> a, occ |-> x]>> : a \in Times, x \in Then \ {"free"}}
                     \cup {<<[at |-> a[1], occ |-> x], [at |-> a[2], occ |-> "free"]>> :
                              a \in {<<i, j>> \in Times \X Times : i < j}, x \in Then \ {"free"}}
  ELSE {<<[at |-> a, occ |-> "free"]>> : a \in Times}
       \cup {<<[at |-> a[1], occ |-> "free"], [at |-> a[2], occ |-> x]>> :
                a \in {<<i, j>> \in Times \X Times : i < j}, x \in Then \ {"free"}}
Scripts == UNION {[first : {o}, evs : Tails(o), aff : BOOLEAN, to : Timeouts] : o \in First}
Chosen == IF N = 0 THEN Scripts ELSE RandomSubset(N, Scripts)

VARIABLES s, now, occ, i, st, since, acks, out, tried
vars == <<s, now, occ, i, st, since, acks, out, tried>>

Init == /\ s \in Chosen /\ now = 0 /\ occ = s.first /\ i = 1
        /\ st = "try" /\ since = 0 /\ acks = 0 /\ out = "" /\ tried = FALSE

Done(o) == st' = "done" /\ out' = o /\ UNCHANGED <<since, acks>>
Over == s.to # None /\ now >= s.to
Failed(a) == IF Over THEN Done("Timeout")
             ELSE st' = "wait" /\ since' = now /\ acks' = a /\ UNCHANGED out

Try ==
  /\ st = "try"
  /\ tried' = TRUE
  /\ CASE occ = "host" -> Done("ok")
       [] occ = "free" -> IF s.aff THEN Done("ok") ELSE Failed(acks)
       [] occ \in {"bound", "closer"} -> Failed(acks)
       [] occ \in {"silent", "mute"} -> st' = "ack" /\ since' = now /\ UNCHANGED <<acks, out>>
       [] occ = "full" -> st' = "connect" /\ since' = now /\ UNCHANGED <<acks, out>>
  /\ UNCHANGED <<s, now, occ, i>>

\* nobody answers
Stuck ==
  /\ st \in {"ack", "connect"} /\ UNCHANGED tried
  /\ \/ now = since + R \/ (Over /\ now < since + R)
     \/ st = "ack" /\ occ \notin {"silent", "mute"}
     \/ st = "connect" /\ occ # "full"
  /\ IF st = "ack" /\ acks + 1 >= Attempts /\ occ \in {"silent", "mute"} THEN Done("VersionMismatch")
     ELSE IF st = "connect" /\ occ = "free" /\ s.aff THEN Done("ok")
     ELSE Failed(IF st = "ack" THEN acks + 1 ELSE acks)
  /\ UNCHANGED <<s, now, occ, i>>

Wake ==
  /\ st = "wait" /\ st' = "try"
  /\ UNCHANGED <<s, now, occ, i, since, acks, out, tried>>

Change ==
  /\ i <= Len(s.evs) /\ s.evs[i].at = now
  /\ occ' = s.evs[i].occ /\ i' = i + 1
  /\ UNCHANGED <<s, now, st, since, acks, out, tried>>

Tick ==
  /\ now < Hz
  /\ i <= Len(s.evs) => s.evs[i].at # now
  /\ st # "try"
  /\ st \in {"wait", "ack", "connect"} => now < since + R
  /\ st = "wait" /\ s.to # None => now < s.to
  /\ st = "ack" => occ \in {"silent", "mute"}
  /\ st = "connect" => occ = "full"
  /\ now' = now + 1
  /\ UNCHANGED <<s, occ, i, st, since, acks, out, tried>>

Report(o) == ~Tell \/ PrintT("@@" \o ToJson([s |-> s, out |-> o, at |-> now]))
Next == \/ /\ st # "done" /\ (Try \/ Stuck \/ Wake \/ Change \/ Tick)
           /\ (st' = "done" /\ Tell => PrintT("@@" \o ToJson([s |-> s, out |-> out', at |-> now])))
        \/ /\ st # "done" /\ now = Hz /\ st # "try" /\ st' = "done" /\ out' = "pending"
           /\ Report("pending") /\ UNCHANGED <<s, now, occ, i, since, acks, tried>>
Spec == Init /\ [][Next]_vars

(* properties *)
NotEarly == out = "Timeout" => s.to # None /\ now >= s.to /\ tried
NotLate == s.to # None /\ st # "done" => now <= s.to + R
\* as soon as there is a host, at most an attempt that is under way and a pause pass
HostSince == IF occ # "host" THEN 1000 ELSE IF i = 1 THEN 0 ELSE s.evs[i - 1].at
GetsIn == st # "done" /\ HostSince # 1000 => now <= HostSince + R
OnlyTrue == out = "ok" => s.aff \/ \E e \in {s.first} \cup {s.evs[k].occ : k \in 1..Len(s.evs)} : e = "host"
AtOnce == s.first \in {"host"} \cup (IF s.aff THEN {"free"} ELSE {}) /\ st = "done" => now = 0
NoLoss == out = "VersionMismatch" => now >= Attempts * R
=============================================================================
