----------------------------- MODULE LabelGiven -----------------------------
(* The meaning of given expressions, too deep or too large to be enumerated:
   <<expression, <<label, ...>>>>, a label being a sequence of atoms.        *)
EXTENDS LabelOp, TLC, Json
CONSTANT File
Cases == JsonDeserialize(File)
VARIABLE k
Set(s) == {s[i] : i \in 1..Len(s)}
Init == k \in DOMAIN Cases
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Printed == PrintT("@@" \o ToJson([k |-> k, vals |-> [i \in 1..Len(Cases[k][2]) |-> Eval(Cases[k][1], Set(Cases[k][2][i]))]]))
=============================================================================
