---------------------------- MODULE ReadingTrace ----------------------------
(* Recorded readings, one per step; s.what says which predicate applies.   *)
EXTENDS Reading, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>
View == <<sc, l>>
Init == sc \in 1..Len(Scen) /\ l = 1
Fails(s, o) == IF "err" \in DOMAIN o THEN {"raised:" \o o.err}
               ELSE IF s.what = "valid" THEN ValidFails(o, o.p) ELSE CoherentFails(o, o.p)
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == /\ l <= Len(Scen[sc].obs)
        /\ Report(TLCEval(Fails(Scen[sc], Scen[sc].obs[l])), sc, l)
        /\ (Scen[sc].what = "coherent" /\ "cov" \in DOMAIN Scen[sc].obs[l] /\ Shaped(Scen[sc].obs[l].cov, Scen[sc].obs[l].p)
            /\ ~WellConditioned(Scen[sc].obs[l].cov)) => PrintT("@@SKIP 1")
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
