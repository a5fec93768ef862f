---------------------------- MODULE RegistryGen -----------------------------
EXTENDS Registry, Json
Stop == Len(ops) = MaxOps /\ ops[1].op # "done" /\ PrintT("@@" \o ToJson(ops))
        /\ ops' = [ops EXCEPT ![1].op = "done"] /\ UNCHANGED <<S, nx, nc, q>>
Spec == GInit /\ [][GNext \/ Stop]_gvars
=============================================================================
