----------------------------- MODULE LabelEdit ------------------------------
(* A label is a set of strings, whatever the order of edits.                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Atoms, D
VARIABLES lab, edits, sets
vars == <<lab, edits, sets>>
Init == lab = {} /\ edits = <<>> /\ sets = <<>>
Step(op, a, new) ==
  /\ lab' = new
  /\ edits' = Append(edits, <<op, a>>)
  /\ sets' = Append(sets, new)
  /\ (Len(edits') = D => PrintT("@@" \o ToJson(<<edits', sets'>>)))
Next == /\ Len(edits) < D
        /\ \E a \in Atoms : Step("ins", a, lab \cup {a}) \/ Step("rem", a, lab \ {a})
Spec == Init /\ [][Next]_vars
Sane == Len(sets) > 0 => /\ sets[Len(sets)] = lab
                         /\ LET e == edits[Len(edits)] IN (e[2] \in lab) = (e[1] = "ins")
=============================================================================
