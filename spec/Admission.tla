----------------------------- MODULE Admission ------------------------------
(* Who may join a running bus.  Versions are <<major, minor, patch>>.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Compatible(v, w) ==
  IF v[1] = 0 /\ w[1] = 0 THEN v[2] = w[2] ELSE v[1] = w[1]

\* the outcomes a join may have
Admit(hv, ht, v, tok) ==
  IF Compatible(v, hv) /\ tok = ht THEN {"ok"}
  ELSE (IF Compatible(v, hv) THEN {} ELSE {"version"}) \cup (IF tok = ht THEN {} ELSE {"token"})

CONSTANTS Versions, Tokens, MaxTries
VARIABLES host, tries, members
vars == <<host, tries, members>>
Init == /\ host \in {[v |-> v, tok |-> t] : v \in Versions, t \in Tokens}
        /\ tries = <<>>
        /\ members = {}
        /\ PrintT("@@" \o ToJson([host |-> host, rows |->
              {<<v, t, Admit(host.v, host.tok, v, t)>> : v \in Versions, t \in Tokens}]))
Try == /\ Len(tries) < MaxTries
       /\ \E v \in Versions, t \in Tokens, o \in {"ok", "version", "token"} :
            /\ o \in Admit(host.v, host.tok, v, t)
            /\ tries' = Append(tries, <<v, t, o>>)
            /\ members' = IF o = "ok" THEN members \cup {<<v, t>>} ELSE members
            /\ UNCHANGED host
Spec == Init /\ [][Try]_vars

\* everybody on the bus understands everybody, and holds the token of the host
Peers == \A m, n \in members \cup {<<host.v, host.tok>>} : Compatible(m[1], n[1]) /\ m[2] = n[2]
Equivalence == /\ \A v, w \in Versions : Compatible(v, v) /\ (Compatible(v, w) <=> Compatible(w, v))
               /\ \A u, v, w \in Versions : Compatible(u, v) /\ Compatible(v, w) => Compatible(u, w)
=============================================================================
