------------------------------ MODULE Registry ------------------------------
(* Memory registries: what an allocation may hand out, and when the callback
   of an allocation runs.  Time is in units; Keep units after it was last
   handed out a region may be forgotten.

   S.now
   S.ent    g -> << [r, size, tag, last, cb] >>   regions registry g has handed out
   S.h      handle -> region   handles other than the registries' own, wherever they are
   S.fired  callbacks that have run
   S.up     registries that exist
   S.nr     regions ever created                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Keep, Gs

Empty == [now |-> 0, ent |-> [g \in Gs |-> <<>>], h |-> <<>>, fired |-> {}, up |-> Gs]

InUse(S, r) == \E x \in DOMAIN S.h : S.h[x] = r
Young(S, en) == S.now - en.last < Keep
Fits(en, size, tag) == en.tag = tag /\ size <= en.size /\ en.size < 2 * size
\* regions registry g may hand out again
May(S, g, size, tag) ==
  {i \in 1..Len(S.ent[g]) : Fits(S.ent[g][i], size, tag) /\ ~InUse(S, S.ent[g][i].r)}
Must(S, g, size, tag) == {i \in May(S, g, size, tag) : Young(S, S.ent[g][i])}
AllRegions(S) == UNION {{S.ent[g][i].r : i \in 1..Len(S.ent[g])} : g \in Gs}

Pending(S, g) == {i \in 1..Len(S.ent[g]) : S.ent[g][i].cb # 0 /\ S.ent[g][i].cb \notin S.fired}
\* callbacks of regions nobody uses any more
Due(S) == UNION {{S.ent[g][i].cb : i \in {j \in Pending(S, g) : ~InUse(S, S.ent[g][j].r)}} : g \in S.up}
DueOf(S, g) == {S.ent[g][i].cb : i \in {j \in Pending(S, g) : ~InUse(S, S.ent[g][j].r)}}
\* the known deviation: g forgets a region that is still in use
Expired(S, g) == {S.ent[g][i].cb : i \in {j \in Pending(S, g) : ~Young(S, S.ent[g][j])}}

AddH(S, x, r) == [S EXCEPT !.h = [y \in DOMAIN S.h \cup {x} |-> IF y = x THEN r ELSE S.h[y]]]
DelH(S, x) == [S EXCEPT !.h = [y \in DOMAIN S.h \ {x} |-> S.h[y]]]
Fire(S, F) == [S EXCEPT !.fired = @ \cup F]

\* the allocation handed out entry i again, running the callbacks F
Reuse(S, g, i, x, cb, F) ==
  AddH(Fire([S EXCEPT !.ent[g][i].last = S.now, !.ent[g][i].cb = cb], F), x, S.ent[g][i].r)
Fresh(S, g, r, size, tag, x, cb, F) ==
  AddH(Fire([S EXCEPT !.ent[g] = Append(@, [r |-> r, size |-> size, tag |-> tag, last |-> S.now, cb |-> cb])], F), x, r)

(* ---------------- generation of behaviours and model checking ----------- *)
CONSTANTS Sizes, Tags, MaxOps, MaxTime, Walk(_)
VARIABLES S, ops, nx, nc, q     \* q: handles posted to the other process, not taken yet
gvars == <<S, ops, nx, nc, q>>

GInit == S = Empty /\ ops = <<>> /\ nx = 0 /\ nc = 0 /\ q = <<>>
Do(o) == ops' = Append(ops, o)
NewR(T) == CHOOSE r \in 1..(MaxOps + 1) : r \notin AllRegions(T)
Alloc(g) ==
  /\ g \in S.up
  /\ \E size \in Walk(Sizes), tag \in Walk(Tags), wcb \in Walk({TRUE, FALSE}) :
       LET cb == IF wcb THEN nc + 1 ELSE 0
           must == Must(S, g, size, tag)
       IN /\ Do([op |-> "alloc", g |-> g, size |-> size, tag |-> tag, cb |-> cb, x |-> nx + 1])
          /\ nx' = nx + 1
          /\ nc' = nc + 1
          /\ \/ must = {} /\ S' = Fresh(S, g, NewR(S), size, tag, nx + 1, cb, {})
             \/ \E i \in May(S, g, size, tag) :
                  S' = Reuse(S, g, i, nx + 1, cb, {S.ent[g][i].cb} \ ({0} \cup S.fired))
  /\ UNCHANGED q
Held == {x \in DOMAIN S.h : \A i \in 1..Len(q) : q[i] # x}
Clone == \E x \in Walk(Held) :
  /\ S' = AddH(S, nx + 1, S.h[x]) /\ nx' = nx + 1 /\ Do([op |-> "clone", x |-> x, as |-> nx + 1])
  /\ UNCHANGED <<nc, q>>
Drop == Held # {} /\ \E x \in Walk(Held) :
  S' = DelH(S, x) /\ Do([op |-> "drop", x |-> x]) /\ UNCHANGED <<nx, nc, q>>
\* a duplicate travels to the other process, and is taken there
Post == Held # {} /\ Len(q) < 3 /\ \E x \in Walk(Held) :
  /\ S' = AddH(S, nx + 1, S.h[x]) /\ nx' = nx + 1 /\ q' = Append(q, nx + 1)
  /\ Do([op |-> "post", x |-> x, as |-> nx + 1]) /\ UNCHANGED nc
TakeQ == q # <<>> /\ q' = Tail(q) /\ Do([op |-> "take", as |-> q[1]]) /\ UNCHANGED <<S, nx, nc>>
Adv == /\ \E t \in Walk({1, 2, 4, 7}) : S.now + t <= MaxTime /\ S' = [S EXCEPT !.now = @ + t] /\ Do([op |-> "adv", t |-> t])
       /\ UNCHANGED <<nx, nc, q>>
Maintain(g) == g \in S.up /\ S' = Fire(S, DueOf(S, g)) /\ Do([op |-> "maintain", g |-> g]) /\ UNCHANGED <<nx, nc, q>>
DropG(g) == /\ g \in S.up /\ (\E z \in Walk(1..15) : z <= 2) /\ S' = [Fire(S, {S.ent[g][i].cb : i \in Pending(S, g)}) EXCEPT !.up = @ \ {g}]
            /\ Do([op |-> "gdrop", g |-> g]) /\ UNCHANGED <<nx, nc, q>>
GNext == Len(ops) < MaxOps /\ \/ \E g \in Gs : Alloc(g) \/ Maintain(g) \/ DropG(g)
                              \/ Clone \/ Drop \/ Post \/ TakeQ \/ Adv

\* C12: a region handed out belongs to its receiver alone
Alone ==
  (ops # <<>> /\ ops[Len(ops)].op = "alloc") =>
    LET x == ops[Len(ops)].x IN \A y \in DOMAIN S.h : y # x => S.h[y] # S.h[x]
OneRegistry == \A g, k \in Gs : g # k => {S.ent[g][i].r : i \in 1..Len(S.ent[g])} \cap {S.ent[k][i].r : i \in 1..Len(S.ent[k])} = {}
\* C13: a callback that has not run belongs to exactly one entry, unless its registry is gone
Tracked == \A c \in 1..nc : c \notin S.fired =>
   Cardinality({<<g, i>> \in {<<g, i>> \in Gs \X (1..MaxOps) : i <= Len(S.ent[g])} : S.ent[g][i].cb = c}) <= 1
=============================================================================
