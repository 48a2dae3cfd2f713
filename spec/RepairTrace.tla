----------------------------- MODULE RepairTrace -----------------------------
(* Recorded calls of the matrix helpers, one per step. *)
EXTENDS Repair, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>
View == <<sc, l>>
Init == sc \in 1..Len(Scen) /\ l = 1
Fails(t) ==
   IF "err" \in DOMAIN t THEN {t.f \o "_raised:" \o t.err}
   ELSE (IF t.kept THEN {} ELSE {t.f \o "_modified_its_argument"})
        \cup (IF t.f = "ispd" THEN
                 (IF t.out = RLt(0, MinEig(MSym(t.a))) \/ RLeq(RAbs(MinEig(MSym(t.a))), RMul("1e-12", MaxAbs(t.a))) THEN {} ELSE {"positive_definite_test"})
              ELSE IF ~Shaped(t.out, Len(t.a)) THEN {t.f \o "_shape_or_nonfinite"}
              ELSE CASE t.f = "floor" -> FloorFails(t.a, t.eps, t.out)
                     [] t.f = "nearest" -> NearestFails(t.a, t.out, t.chol)
                     [] t.f = "shrink" -> ShrinkFails(t.a, t.phi, t.lam, t.out)
                     [] t.f = "invert" -> InverseFails(t.a, t.out)
                     [] t.f = "corr" -> CorrFails(t.a, t.out)
                     [] t.f = "sym" -> SymFails(t.a, t.out)
                     [] t.f = "geo" -> GeoFails(t.a, t.b, t.g, t.out))
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == /\ l <= Len(Scen[sc].calls)
        /\ Report(TLCEval(Fails(Scen[sc].calls[l])), sc, l)
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
