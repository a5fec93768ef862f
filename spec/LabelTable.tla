----------------------------- MODULE LabelTable -----------------------------
(* The meaning of every label expression up to a depth, for every label.      *)
EXTENDS LabelOp, TLC, Json, FiniteSets, SequencesExt
CONSTANTS Atoms, Depth
VARIABLE todo

Init == todo = SetToSeq(Exprs(Atoms, Depth))
Labs == SetToSeq(SUBSET Atoms)
Row(e) == <<e, [i \in 1..Len(Labs) |-> <<Labs[i], Eval(e, Labs[i])>>]>>
Take == IF Len(todo) < 64 THEN Len(todo) ELSE 64
Next ==
  /\ todo # <<>>
  /\ PrintT("@@" \o ToJson([i \in 1..Take |-> Row(todo[i])]))
  /\ todo' = SubSeq(todo, Take + 1, Len(todo))
Spec == Init /\ [][Next]_todo

\* Boolean laws the evaluation obeys, on the expression next in line
Laws ==
  todo # <<>> =>
    \A lab \in SUBSET Atoms : LET e == todo[1] IN
      /\ Eval(N(N(e)), lab) = Eval(e, lab)
      /\ Eval(A(e, T), lab) = Eval(e, lab) /\ Eval(O(e, F), lab) = Eval(e, lab)
      /\ \A a \in Atoms : /\ Eval(N(A(e, L(a))), lab) = Eval(O(N(e), N(L(a))), lab)
                          /\ Eval(A(e, L(a)), lab) => Eval(O(e, L(a)), lab)
=============================================================================
