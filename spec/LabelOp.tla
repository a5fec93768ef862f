------------------------------ MODULE LabelOp ------------------------------
(* Label expressions.  An expression is a tuple whose first element names the
   operator:  <<"t">> <<"f">> <<"l", atom>> <<"n", x>> <<"a", x, y>> <<"o", x, y>>
   and a label is a set of atoms.                                            *)
EXTENDS Naturals, Sequences

T == <<"t">>
F == <<"f">>
L(a) == <<"l", a>>
N(x) == <<"n", x>>
A(x, y) == <<"a", x, y>>
O(x, y) == <<"o", x, y>>

RECURSIVE Eval(_, _)
Eval(op, lab) ==
  CASE op[1] = "t" -> TRUE
    [] op[1] = "f" -> FALSE
    [] op[1] = "l" -> op[2] \in lab
    [] op[1] = "n" -> ~Eval(op[2], lab)
    [] op[1] = "a" -> Eval(op[2], lab) /\ Eval(op[3], lab)
    [] op[1] = "o" -> Eval(op[2], lab) \/ Eval(op[3], lab)

RECURSIVE Exprs(_, _)
\* all expressions of nesting depth at most d over the atoms as
Exprs(as, d) ==
  IF d = 0 THEN {T, F} \cup {L(a) : a \in as}
  ELSE LET E == Exprs(as, d - 1)
       IN  E \cup {N(x) : x \in E}
             \cup {A(x, y) : x \in E, y \in E}
             \cup {O(x, y) : x \in E, y \in E}
=============================================================================
