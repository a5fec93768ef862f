-------------------------------- MODULE CApi --------------------------------
(* The C interface as its users see it: every value is behind a handle, every
   call takes handles by reference (they stay valid) or by value (they are
   gone afterwards) and returns a code, a handle or a number.  Handle 0 is the
   null handle: nothing was there.  Regions and objects have identities; the
   reference count of a region is the number of handles, messages and inbox
   entries that hold it.

   One process uses the interface.  HostSelf: it hosts the bus itself;
   otherwise the test's own endpoint does.  That endpoint ("mon") matches only
   the label "~m", which no selector here contains except through negation or
   "true"; being host, it then is the last candidate, being a client the first
   or last in the order of joining.                                          *)
EXTENDS LabelOp, Integers, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS
  Atoms,       \* label elements
  Fmts, Lens,  \* formats and lengths of payloads
  Idx,         \* indices tried when retrieving
  MaxH,        \* handles alive at once
  HostSelf,
  D,
  Chance(_), Pick(_)

VARIABLES H,    \* handle -> [k, ...]
          nh,   \* handles ever handed out
          nr,   \* regions and objects ever made
          eps,  \* endpoints in the order of joining: [label, open, box]
          hist, done
vars == <<H, nh, nr, eps, hist, done>>

MonEp == [label |-> {"~m"}, open |-> TRUE, box |-> <<>>, mon |-> TRUE]
Init ==
  /\ H = <<>> /\ nh = 0 /\ nr = 0 /\ hist = <<>> /\ done = FALSE
  /\ eps = IF HostSelf THEN <<>> ELSE <<MonEp>>

Of(k) == {h \in DOMAIN H : H[h].k = k}
New(h, v) == [g \in DOMAIN H \cup {h} |-> IF g = h THEN v ELSE H[g]]
Without(S) == [g \in DOMAIN H \ S |-> H[g]]
Only(S, h, v) == [g \in (DOMAIN H \ S) \cup {h} |-> IF g = h THEN v ELSE H[g]]
Room == Cardinality(DOMAIN H) < MaxH
NH == nh + 1

Boxed == UNION {{<<i, j>> : j \in 1..Len(eps[i].box)} : i \in 1..Len(eps)}
Count(s, r) == Cardinality({i \in 1..Len(s) : s[i] = r})
\* references to region r
Refs(r) == Cardinality({h \in Of("reg") : H[h].r = r})
           + FoldSet(LAMBDA h, n : n + Count(H[h].regs, r), 0, Of("msg"))
           + FoldSet(LAMBDA p, n : n + Count(eps[p[1]].box[p[2]].regs, r), 0, Boxed)

Rec(f, a, exp) == hist' = Append(hist, [f |-> f, a |-> a, h |-> NH, exp |-> exp])
RecX(f, a, exp, x) == hist' = Append(hist, [f |-> f, a |-> a, h |-> NH, exp |-> exp, x |-> x])
Same == UNCHANGED <<nr, eps>>
Made(n) == nh' = nh + n

(* ---------------- labels and label expressions ---------------- *)
NewLabel == /\ Chance("label") /\ Room
            /\ H' = New(NH, [k |-> "label", s |-> {}]) /\ Made(1) /\ Same /\ Rec("label", <<>>, <<>>)
Insert == /\ Chance("linsert")
          /\ \E h \in Pick(Of("label")), x \in Pick(Atoms) :
               /\ H' = [H EXCEPT ![h].s = @ \cup {x}] /\ Rec("linsert", <<h, x>>, <<>>)
          /\ Made(0) /\ Same
NewLeaf == /\ Chance("oleaf") /\ Room
           /\ \E x \in Pick(Atoms) :
                H' = New(NH, [k |-> "op", e |-> <<"l", x>>]) /\ Rec("oleaf", <<x>>, <<>>)
           /\ Made(1) /\ Same
NewBool == /\ Chance("obool") /\ Room
           /\ \E b \in Pick({TRUE, FALSE}) :
                H' = New(NH, [k |-> "op", e |-> IF b THEN <<"t">> ELSE <<"f">>]) /\ Rec("obool", <<b>>, <<>>)
           /\ Made(1) /\ Same
Not == /\ Chance("onot")
       /\ \E h \in Pick(Of("op")) :
            H' = Only({h}, NH, [k |-> "op", e |-> <<"n", H[h].e>>]) /\ Rec("onot", <<h>>, <<>>)
       /\ Made(1) /\ Same
Bin == /\ Chance("obin") /\ Cardinality(Of("op")) > 1
       /\ \E h \in Pick(Of("op")), o \in Pick({"a", "o"}) :
          \E g \in Pick(Of("op") \ {h}) :
            /\ H' = Only({h, g}, NH, [k |-> "op", e |-> <<o, H[h].e, H[g].e>>])
            /\ Rec(IF o = "a" THEN "oand" ELSE "oor", <<h, g>>, <<>>)
       /\ Made(1) /\ Same

(* ---------------- endpoints ---------------- *)
\* want: which of the two results the caller has a place for
Join ==
  /\ Chance("join") /\ Room
  /\ \E h \in Pick(Of("label")), tok \in Pick(IF eps = <<>> THEN {"tk"} ELSE {"tk", "t2"}), want \in Pick({"sr", "s", "r", ""}) :
       LET ok == tok = "tk"
           e == Len(eps) + 1
           s == {NH : x \in {y \in {1} : ok /\ want \in {"sr", "s"}}}
           r == {NH + 1 : x \in {y \in {1} : ok /\ want \in {"sr", "r"}}}
       IN  /\ H' = [g \in DOMAIN H \cup s \cup r |->
                      IF g \in s THEN [k |-> "tx", e |-> e] ELSE IF g \in r THEN [k |-> "rx", e |-> e] ELSE H[g]]
           /\ eps' = IF ~ok THEN eps
                     ELSE Append(eps, [label |-> H[h].s, open |-> want \in {"sr", "r"}, box |-> <<>>, mon |-> FALSE])
                          \o (IF eps = <<>> THEN <<MonEp>> ELSE <<>>)
           /\ Rec("join", <<h, tok, want>>, [c |-> IF ok THEN 0 ELSE 0 - 5])
  /\ Made(2) /\ UNCHANGED nr
\* an identifier that is no text
BadJoin ==
  /\ Chance("badjoin") /\ \E h \in Pick(Of("label")) : Rec("badjoin", <<h>>, [c |-> 0 - 1])
  /\ Made(0) /\ Same /\ UNCHANGED H

(* ---------------- messages ---------------- *)
Make ==
  /\ Chance("msg") /\ Room
  /\ \E h \in Pick(Of("op")), mode \in Pick({"u", "m"}), f \in Pick(Fmts), n \in Pick(Lens) :
       /\ H' = New(NH, [k |-> "msg", sel |-> H[h].e, mode |-> mode, fmt |-> f, len |-> n, objs |-> <<>>, regs |-> <<>>])
       /\ Rec("msg", <<h, mode, f, n>>, <<>>)
  /\ Made(1) /\ Same
Look ==
  /\ Chance("mdata")
  /\ \E h \in Pick(Of("msg")) : Rec("mdata", <<h>>, [fmt |-> H[h].fmt, len |-> H[h].len])
  /\ Made(0) /\ Same /\ UNCHANGED H

NewThing(k) ==
  /\ Chance(k) /\ Room
  /\ H' = New(NH, [k |-> k, r |-> nr + 1]) /\ nr' = nr + 1
  /\ Rec(IF k = "obj" THEN "onew" ELSE "rnew", <<>>, [id |-> nr + 1])
  /\ Made(1) /\ UNCHANGED eps
Clone ==
  /\ Chance("rclone") /\ Room
  /\ \E h \in Pick(Of("reg")) : H' = New(NH, H[h]) /\ Rec("rclone", <<h>>, [c |-> 0])
  /\ Made(1) /\ Same
CountRefs ==
  /\ Chance("rref")
  /\ \E h \in Pick(Of("reg")) : Rec("rref", <<h>>, [id |-> H[h].r, ref |-> Refs(H[h].r)])
  /\ Made(0) /\ Same /\ UNCHANGED H
Fld(k) == IF k = "obj" THEN "objs" ELSE "regs"
Attach(k) ==
  /\ Chance(k \o "append")
  /\ \E m \in Pick(Of("msg")), h \in Pick(Of(k)) :
       /\ H' = [g \in DOMAIN H \ {h} |-> IF g = m THEN [H[m] EXCEPT ![Fld(k)] = Append(@, H[h].r)] ELSE H[g]]
       /\ Rec(IF k = "obj" THEN "oappend" ELSE "rappend", <<m, h>>, <<>>)
  /\ Made(0) /\ Same
\* index i counts from 0
Get(k) ==
  /\ Chance("get")
  /\ \E m \in Pick(Of("msg")), i \in Pick(Idx) :
       LET s == H[m][Fld(k)]
           there == i < Len(s)
       IN  Rec(IF k = "obj" THEN "oget" ELSE "rget", <<m, i>>,
               [id |-> IF there THEN s[i + 1] ELSE 0, ref |-> IF there /\ k = "reg" THEN Refs(s[i + 1]) ELSE 0])
  /\ Made(0) /\ Same /\ UNCHANGED H
Retrieve(k) ==
  /\ Chance("retr") /\ Room
  /\ \E m \in Pick(Of("msg")), i \in Pick(Idx) :
       LET s == H[m][Fld(k)]
           there == i < Len(s)
           rest == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
       IN  /\ H' = IF there THEN [g \in DOMAIN H \cup {NH} |->
                                    IF g = NH THEN [k |-> k, r |-> s[i + 1]]
                                    ELSE IF g = m THEN [H[m] EXCEPT ![Fld(k)] = rest] ELSE H[g]]
                   ELSE H
           /\ Rec(IF k = "obj" THEN "oretr" ELSE "rretr", <<m, i>>, [id |-> IF there THEN s[i + 1] ELSE 0])
  /\ Made(1) /\ Same

(* ---------------- traffic ---------------- *)
Hits(m) == {i \in 1..Len(eps) : eps[i].open /\ Eval(m.sel, eps[i].label)}
\* the first in the order of joining, the host (number 1) last
Targets(m) ==
  LET S == Hits(m) IN
  IF m.mode = "m" \/ S = {} THEN S
  ELSE IF S = {1} THEN {1} ELSE {Min(S \ {1})}
Send ==
  /\ Chance("send")
  /\ \E t \in Pick(Of("tx")), h \in Pick(Of("msg")) :
       LET m == H[h] to == Targets(m)
       IN  /\ H' = Without({h})
           /\ eps' = [i \in 1..Len(eps) |-> IF i \in to /\ ~eps[i].mon THEN [eps[i] EXCEPT !.box = Append(@, m)] ELSE eps[i]]
           /\ RecX("send", <<t, h>>, [c |-> 0], [mon |-> \E i \in to : eps[i].mon])
  /\ Made(0) /\ UNCHANGED nr
\* what arrives is the message that was sent, selector included: it can be sent on
Recv ==
  /\ Chance("recv") /\ Room
  /\ \E h \in Pick(Of("rx")) :
       LET e == H[h].e  b == eps[e].box
       IN  IF b = <<>> THEN /\ Rec("recv", <<h>>, [c |-> 0 - 2]) /\ UNCHANGED <<H, eps>>
           ELSE /\ H' = New(NH, b[1])
                /\ eps' = [eps EXCEPT ![e].box = Tail(@)]
                /\ Rec("recv", <<h>>, [c |-> 0])
  /\ Made(1) /\ UNCHANGED nr

Drop ==
  /\ Chance("drop")
  /\ \E h \in Pick(DOMAIN H) :
       LET k == H[h].k IN
       /\ H' = Without({h})
       /\ eps' = IF k = "rx" THEN [eps EXCEPT ![H[h].e].open = FALSE, ![H[h].e].box = <<>>] ELSE eps
       /\ Rec(CASE k = "label" -> "ldrop" [] k = "op" -> "odrop" [] k = "msg" -> "mdrop" [] k = "obj" -> "ofree"
                [] k = "reg" -> "rdrop" [] k = "tx" -> "txdrop" [] k = "rx" -> "rxdrop", <<h>>, <<>>)
  /\ Made(0) /\ UNCHANGED nr

Finish ==
  /\ Len(hist) = D /\ ~done /\ done' = TRUE
  /\ PrintT("@@" \o ToJson([hist |-> hist, left |-> [h \in DOMAIN H |-> H[h].k],
                            msgs |-> {<<h, H[h].objs, H[h].regs>> : h \in Of("msg")}, host |-> HostSelf]))
  /\ UNCHANGED <<H, nh, nr, eps, hist>>
Next ==
  \/ /\ Len(hist) < D /\ UNCHANGED done
     /\ \/ NewLabel \/ Insert \/ NewLeaf \/ NewBool \/ Not \/ Bin \/ Join \/ BadJoin \/ Make \/ Look
        \/ NewThing("obj") \/ NewThing("reg") \/ Clone \/ CountRefs
        \/ \E k \in {"obj", "reg"} : Attach(k) \/ Get(k) \/ Retrieve(k)
        \/ Send \/ Recv \/ Drop
  \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
OnlyMatching == \A i \in 1..Len(eps) : \A j \in 1..Len(eps[i].box) :
  Eval(eps[i].box[j].sel, eps[i].label)
\* what a handle, a message or an inbox holds is counted
CountsPositive == \A h \in Of("reg") : Refs(H[h].r) >= 1
=============================================================================
