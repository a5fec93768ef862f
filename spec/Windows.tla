------------------------------ MODULE Windows -------------------------------
(* Windows of a memory region.  A region of size n is a function from 0..n-1
   to bytes, initially zero; mem keeps the bytes that are not.  Every handle,
   in whatever process, looks at the same function through its latest window.

   A range is <<lower kind, lower, upper kind, upper>>:
     lower "i" included, "x" excluded, "u" unbounded
     upper "e" excluded, "i" included, "u" unbounded
   Big stands for the largest number the machine knows.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Handles, D, Page, Hdr, Pick(_), Table
Big == 2000000000

Lower(r) == CASE r[1] = "i" -> r[2] [] r[1] = "x" -> r[2] + 1 [] r[1] = "u" -> 0
Upper(r, n) == CASE r[3] = "e" -> r[4] [] r[3] = "i" -> r[4] + 1 [] r[3] = "u" -> n
Inside(r, n) == Lower(r) <= Upper(r, n) /\ Upper(r, n) <= n
WinLen(r, n) == IF Inside(r, n) THEN Upper(r, n) - Lower(r) ELSE -1

\* numbers around which something could go wrong: the ends, the pages, the header
Near(n) == {x \in {0, 1, 5, Page - Hdr - 1, Page - Hdr, Page - Hdr + 1, Page - 1, Page, Page + 1, 2 * Page - Hdr,
                   n - Hdr, n - 1, n, n + 1, n + Hdr, Big - 1, Big} : x >= 0}
Ranges(n) == {<<k, a, l, b>> : k \in {"i", "x"}, a \in Near(n), l \in {"e", "i"}, b \in Near(n)}
             \cup {<<"u", 0, l, b>> : l \in {"e", "i"}, b \in Near(n)}
             \cup {<<k, a, "u", 0>> : k \in {"i", "x"}, a \in Near(n)}
             \cup {<<"u", 0, "u", 0>>}

VARIABLES size, mem, win, hist
vars == <<size, mem, win, hist>>
Init == /\ size \in Sizes
        /\ mem = <<>>
        /\ win = [h \in Handles |-> <<>>]
        /\ hist = <<>>
        /\ (Table => PrintT("@@" \o ToJson([size |-> size, rows |-> {<<r, WinLen(r, size)>> : r \in Ranges(size)}])))

\* what is seen through a window: the bytes that are not zero
Seen(r) == {<<o - Lower(r), mem[o]>> : o \in {o \in DOMAIN mem : Lower(r) <= o /\ o < Upper(r, size)}}

Map(h) == \E r \in Pick(Ranges(size)) :
  /\ win' = IF Inside(r, size) THEN [win EXCEPT ![h] = r] ELSE win
  /\ hist' = Append(hist, [op |-> "map", h |-> h, r |-> r, len |-> WinLen(r, size),
                           seen |-> IF Inside(r, size) THEN Seen(r) ELSE {}])
  /\ UNCHANGED <<size, mem>>
\* look again through the same window
Look(h) ==
  /\ win[h] # <<>>
  /\ hist' = Append(hist, [op |-> "map", h |-> h, r |-> win[h], len |-> WinLen(win[h], size), seen |-> Seen(win[h])])
  /\ UNCHANGED <<size, mem, win>>
Write(h) ==
  /\ win[h] # <<>> /\ WinLen(win[h], size) > 0 /\ Cardinality(DOMAIN mem) < 12
  /\ \E rel \in Pick({0, WinLen(win[h], size) - 1, WinLen(win[h], size) \div 2}), v \in Pick(1..255) :
       LET o == Lower(win[h]) + rel IN
       /\ mem' = [x \in DOMAIN mem \cup {o} |-> IF x = o THEN v ELSE mem[x]]
       /\ hist' = Append(hist, [op |-> "write", h |-> h, r |-> win[h], rel |-> rel, v |-> v])
  /\ UNCHANGED <<size, win>>
Stop == /\ Len(hist) = D /\ PrintT("@@" \o ToJson([size |-> size, hist |-> hist]))
        /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<size, mem, win>>
Next == (Len(hist) < D /\ \E h \in Handles : Map(h) \/ Look(h) \/ Write(h)) \/ (~Table /\ Stop)
Spec == Init /\ [][Next]_vars

Inv == /\ \A o \in DOMAIN mem : 0 <= o /\ o < size
       /\ \A h \in Handles : win[h] # <<>> => Inside(win[h], size)
=============================================================================
