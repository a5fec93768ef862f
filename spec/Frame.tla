-------------------------------- MODULE Frame --------------------------------
(* How a message travels: selector and payload are put into one frame, each
   preceded by its size and filled up to whole words with whatever was there;
   the bus reads the selector and passes the frame on as it is; the receiver
   takes the payload out again.  What arrives must be what was sent, whatever
   lengths, contents and fillings.  Frames of up to Limit bytes can be carried.

   Table: lengths at which something could go wrong and whether they fit.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS W,                 \* bytes of a word
          MaxSel, MaxPay,    \* lengths explored
          Vals,              \* values of a byte
          Hops,
          Limit,
          Table, Over,       \* bytes of a frame that are not payload
          Upto               \* every length up to here

Align(n) == ((n + W - 1) \div W) * W
Strings(n) == UNION {[1..k -> Vals] : k \in 0..n}
Pad(n) == Align(n) - n
\* a size, least significant byte first
Num(n) == [i \in 1..W |-> IF i = 1 THEN n ELSE 0]
ToNum(s) == s[1]
Fill(n, g) == [i \in 1..n |-> g]
Encode(sel, pay, g) ==
  Fill(W, 1) \o Num(Len(sel)) \o sel \o Fill(Pad(Len(sel)), g) \o Num(Len(pay)) \o pay \o Fill(Pad(Len(pay)), g)
SelOf(f) == LET n == ToNum(SubSeq(f, W + 1, 2 * W)) IN SubSeq(f, 2 * W + 1, 2 * W + n)
PayOf(f) == LET at == 2 * W + Align(Len(SelOf(f)))
                n == ToNum(SubSeq(f, at + 1, at + W))
            IN  SubSeq(f, at + W + 1, at + W + n)

VARIABLES sel, pay, frame, hop
vars == <<sel, pay, frame, hop>>

Size(n) == Over + Align(n)
Fits(n) == Size(n) <= Limit
Cap == ((Limit - Over) \div W) * W
Powers == {2 ^ k : k \in 5..16}
Lens == {n \in 0..Upto \cup UNION {(p - 5)..(p + 5) : p \in Powers} \cup UNION {(p - Over - 5)..(p - Over + 5) : p \in Powers}
             \cup {246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256} \cup (Cap - 40)..(Cap + 2 * W) : n >= 0}
Rows == {<<n, Fits(n)>> : n \in Lens}

Init == /\ (Table => PrintT("@@" \o ToJson([rows |-> Rows, cap |-> Cap])))
        /\ IF Table THEN sel = <<>> /\ pay = <<>> /\ frame = <<>>
           ELSE /\ sel \in Strings(MaxSel) /\ pay \in Strings(MaxPay)
                /\ \E g \in Vals : frame = Encode(sel, pay, g)
        /\ hop = 0
\* the bus routes by the selector and forwards the frame
Next == ~Table /\ hop < Hops /\ SelOf(frame) = sel /\ hop' = hop + 1 /\ UNCHANGED <<sel, pay, frame>>
Spec == Init /\ [][Next]_vars

Arrives == ~Table => SelOf(frame) = sel /\ PayOf(frame) = pay
Whole == ~Table => Len(frame) % W = 0 /\ Len(frame) = 3 * W + Align(Len(sel)) + Align(Len(pay))
LastFits == Table => Fits(Cap) /\ ~Fits(Cap + 1)
=============================================================================
