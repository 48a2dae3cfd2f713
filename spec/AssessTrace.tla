----------------------------- MODULE AssessTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the assessors.  A step has kind                       *)
(*   score   one score, judged against Assess.tla                          *)
(*   same    two scores that have to agree (t.law says why)                *)
(*   below   a score that must not (or must strictly) exceed another       *)
(*   usable  the declared needs and whether the score ran                  *)
(*   names   the registry                                                  *)
(***************************************************************************)
EXTENDS Assess, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>
View == <<sc, l>>
Init == sc \in 1..Len(Scen) /\ l = 1
\* scores through an inverse are judged when what is inverted is well conditioned
Judged(t) ==
   /\ t.name \in {"FrobeniusToTruth", "VariogramScore"} \/ CondAtMost(MSym(t.C), "1e6")
   /\ t.name = "SteinLoss" => CondAtMost(SampleCov(t.X), "1e6")
   /\ t.name = "SchurLikelihood" => RLt("1e-5", MinEig(MSym(t.C)))
Tol(t) == RMul("1e-8", Magnitude(t.name, t.C, t.X))
Fails(t) ==
   IF "err" \in DOMAIN t THEN {t.name \o "_raised:" \o t.err}
   ELSE IF ("kept" \in DOMAIN t) /\ ~t.kept THEN {t.name \o "_modified_its_arguments"}
   ELSE CASE t.kind = "score" ->
             IF ~RIsFinite(t.value) THEN IF Judged(t) THEN {t.name \o "_nonfinite"} ELSE {}
             ELSE IF ~Judged(t) THEN {}
             ELSE IF NearR(t.value, Score(t.name, t.prm, t.C, t.X, t.T), Tol(t)) THEN {} ELSE {t.name \o "_value"}
          [] t.kind = "same" ->
             IF ~RIsFinite(t.a) \/ ~RIsFinite(t.b) THEN {t.name \o "_nonfinite"}
             ELSE IF NearR(t.a, t.b, Tol(t)) THEN {} ELSE {t.name \o "_" \o t.law}
          [] t.kind = "below" ->      \* a <= b, strictly when asked
             IF ~RIsFinite(t.a) \/ ~RIsFinite(t.b) THEN {t.name \o "_nonfinite"}
             ELSE IF IF t.strict THEN RLt(t.a, t.b) ELSE RLeq(t.a, RAdd(t.b, Tol(t))) THEN {} ELSE {t.name \o "_" \o t.law}
          [] t.kind = "usable" ->
             (IF t.usable = Usable(t.name, t.data, t.truth) THEN {} ELSE {t.name \o "_declared_needs"})
             \cup (IF t.usable /\ ~t.ran THEN {t.name \o "_usable_but_does_not_run"} ELSE {})
          [] t.kind = "names" ->
             (IF t.listed = Names THEN {} ELSE {"registry_contents"})
             \cup (IF t.found = Names THEN {} ELSE {"lookup_by_name"})
             \cup (IF t.types = Names THEN {} ELSE {"lookup_gives_another_assessor"})
             \cup (IF t.unknown = "KeyError" THEN {} ELSE {"unknown_name"})
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == /\ l <= Len(Scen[sc].calls)
        /\ Report(TLCEval(Fails(Scen[sc].calls[l])), sc, l)
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
