--------------------------- MODULE RegistryTrace ----------------------------
(* Recorded histories of real registries, checked against Registry.  An event
   is an operation with what it returned (r, size, ref) and the callbacks that
   ran during it (f).                                                        *)
EXTENDS Registry, Json
CONSTANT File
VARIABLES t, i, T, note
tvars == <<t, i, T, note, gvars>>
Traces == JsonDeserialize(File)

F(ev) == {ev.f[j] : j \in 1..Len(ev.f)}
OnceEach(ev) == Cardinality(F(ev)) = Len(ev.f)

\* [ok, why, S, finding]
Bad(w) == [ok |-> FALSE, why |-> w, S |-> Empty, finding |-> {}]
Good(U, fin) == [ok |-> TRUE, why |-> "", S |-> U, finding |-> fin]

\* callbacks allowed to run now, given that g is called
Allowed(U, g) == Due(U) \cup Expired(U, g)
Cb(U, ev, g, must, U2) ==
  IF ~OnceEach(ev) \/ F(ev) \cap U.fired # {} THEN Bad("a callback ran twice")
  ELSE IF ~(F(ev) \subseteq Allowed(U, g)) THEN Bad("a callback ran while its region is in use")
  ELSE IF ~(must \subseteq F(ev)) THEN Bad("a callback did not run though its region is free")
  ELSE Good(U2, F(ev) \ Due(U))

EvAlloc(U, ev) ==
  LET g == ev.g
      known == {k \in 1..Len(U.ent[g]) : U.ent[g][k].r = ev.r}
  IN  IF ev.r = 0 THEN Bad("the allocation fails")
      ELSE IF ev.rsize < ev.size THEN Bad("less than the requested size")
      ELSE IF ev.ref # 2 THEN Bad("the reference count of an allocation is not 2")
      ELSE IF known = {} THEN
        IF ev.r \in AllRegions(U) THEN Bad("memory of another registry")
        ELSE IF Must(U, g, ev.size, ev.tag) # {} THEN Bad("free memory is not reused")
        ELSE Cb(U, ev, g, {}, Fresh(U, g, ev.r, ev.rsize, ev.tag, ev.x, ev.cb, F(ev)))
      ELSE LET k == CHOOSE k \in known : TRUE IN
        IF InUse(U, ev.r) THEN Bad("memory that is in use")
        ELSE IF k \notin May(U, g, ev.size, ev.tag) THEN Bad("memory of another tag or size")
        ELSE Cb(U, ev, g, {U.ent[g][k].cb} \ ({0} \cup U.fired), Reuse(U, g, k, ev.x, ev.cb, F(ev)))

Apply(U, ev) ==
  CASE ev.op = "alloc" -> EvAlloc(U, ev)
    [] ev.op \in {"clone", "post"} -> IF ev.f # <<>> THEN Bad("a callback ran") ELSE Good(AddH(U, ev.as, U.h[ev.x]), {})
    [] ev.op = "drop" -> LET V == DelH(U, ev.x) IN
         IF F(ev) \subseteq Due(V) THEN Good(Fire(V, F(ev)), {}) ELSE Bad("a callback ran while its region is in use")
    [] ev.op = "take" -> IF ev.f # <<>> THEN Bad("a callback ran") ELSE Good(U, {})
    [] ev.op = "adv" -> Good([U EXCEPT !.now = @ + ev.t], {})
    [] ev.op = "maintain" -> Cb(U, ev, ev.g, DueOf(U, ev.g), Fire(U, F(ev)))
    [] ev.op = "gdrop" ->
         LET P == {U.ent[ev.g][k].cb : k \in Pending(U, ev.g)} IN
         IF OnceEach(ev) /\ F(ev) = P THEN Good([Fire(U, P) EXCEPT !.up = @ \ {ev.g}], {})
         ELSE Bad("the callbacks that ran when the registry was dropped are not those that remained")
    [] ev.op = "end" ->
         \* the number of references to every region, read through an observer
         IF \A k \in 1..Len(ev.refs) :
              LET n == Cardinality({x \in DOMAIN U.h : U.h[x] = ev.refs[k][1]})
              IN  ev.refs[k][2] \in {n, n + 1}
         THEN Good(U, {}) ELSE Bad("a reference count is wrong")

TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ T = Empty /\ note = "" /\ GInit
TStep ==
  /\ i <= Len(Traces[t])
  /\ LET o == Apply(T, Traces[t][i]) IN
       IF o.ok
       THEN /\ T' = o.S /\ i' = i + 1 /\ UNCHANGED note
            /\ (o.finding # {} => PrintT("@@" \o ToJson([t |-> t, i |-> i, finding |-> o.finding])))
            /\ (i = Len(Traces[t]) => PrintT("@@" \o ToJson([t |-> t, accepted |-> TRUE])))
       ELSE /\ note' = o.why /\ i' = 1000000 /\ UNCHANGED T
            /\ PrintT("@@" \o ToJson([t |-> t, i |-> i, why |-> o.why]))
  /\ UNCHANGED <<t, gvars>>
TSpec == TInit /\ [][TStep]_tvars
=============================================================================
