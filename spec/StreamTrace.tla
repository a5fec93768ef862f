---------------------------- MODULE StreamTrace ----------------------------
(* Logs recorded from the implementation, judged by Stream *)
EXTENDS Stream, Json
Runs == JsonDeserialize("runs.json")
VARIABLE k
Init == k \in DOMAIN Runs
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Judged == PrintT("@@" \o ToJson([run |-> k, bad |-> Clauses(Runs[k])]))
=============================================================================
