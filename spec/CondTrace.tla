----------------------------- MODULE CondTrace -----------------------------
(***************************************************************************)
(* Trace validation of composed estimators.  Each step of a recorded run   *)
(* carries the row, what every sub-model was fed during the step (for runs *)
(* with recording sub-models), the forecaster calls, and the readings.     *)
(***************************************************************************)
EXTENDS Conditional, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l, e,
          who,     \* who[i] = the volatility model that series i was given at the first row
          xmax
vars == <<sc, l, e, who, xmax>>
View == <<sc, l>>
S(k) == Scen[k]

Init == /\ sc \in 1..Len(Scen) /\ l = 1 /\ who = <<>> /\ xmax = R(0)
        /\ e = ModInit(S(sc).model, S(sc).p)

Shaped(A, p) == /\ Len(A) = p /\ (\A i \in 1..p : Len(A[i]) = p) /\ IsFiniteM(A)

\* each series' model sees exactly its own value, once
VolFails(s, t, x, w) ==
   IF "vol" \notin DOMAIN t THEN {}
   ELSE IF Len(t.vol) # s.p THEN {"volatility_models_not_fed_once_each"}
   ELSE IF \A i \in 1..s.p : \E k \in 1..s.p : t.vol[k].id = w[i] /\ Len(t.vol[k].v) = 1 /\ REq(t.vol[k].v[1], x[i])
        THEN {} ELSE {"volatility_model_fed_another_value"}
\* the correlation model sees the residual of the forecast made before the row
CorrFails(s, t, ep, ok) ==
   IF "eps" \notin DOMAIN t THEN {}
   ELSE IF Len(t.eps) # 1 \/ Len(t.eps[1]) # s.p THEN {"correlation_model_not_fed_once"}
   ELSE IF ~IsFiniteV(t.eps[1]) THEN {"residual_nonfinite"}
   ELSE IF ~ok THEN {}
   ELSE IF \A i \in 1..s.p : NearR(t.eps[1][i], ep[i], RMul("1e-6", RAdd(RAbs(ep[i]), RAdd(1, RMul("1e-2", xmax')))))
        THEN {} ELSE {"residual_not_one_step_ahead"}
\* one call of the forecaster per series and row, each with that row's value
CallFails(s, t, x) ==
   IF "calls" \notin DOMAIN t THEN {}
   ELSE IF Len(t.calls) # s.p THEN {"forecaster_not_called_once_per_value"}
   ELSE IF /\ \A i \in 1..s.p : \E k \in 1..s.p : REq(t.calls[k], x[i])
           /\ \A k \in 1..s.p : \E i \in 1..s.p : REq(t.calls[k], x[i])
        THEN {} ELSE {"forecaster_called_with_another_value"}

\* residuals reach 1e6 (a first variance of zero is floored at 1e-12): there the geodesic estimator's
\* own floor of 1e-8 is below its rounding error
Rough(m) == m.kind = "cond" /\ m.corr.kind = "est" /\ m.corr.cls = "GeodesicEwaCovariance"
ReadFails(s, o, st) ==
   IF "n" \notin DOMAIN o THEN {}
   ELSE (IF o.n = st.n THEN {} ELSE {"n_samples"})
        \cup (IF ~Shaped(o.cov, s.p) THEN {"covariance_shape_or_nonfinite"}
              ELSE IF ~ModOk(st) \/ Rough(s.model) THEN {}
              ELSE LET E == TLCEval(ModCov(s.model, st))
                   IN (IF CloseM(o.cov, E, "1e-6", RMul("1e-9", MaxAbs(E))) THEN {} ELSE {"covariance_not_DRD"})
                      \cup (IF ~Shaped(o.corr, s.p) THEN {"correlation_shape_or_nonfinite"}
                            ELSE IF NearM(o.corr, CorrOf(E), "1e-6") THEN {} ELSE {"correlation"}))
        \cup (IF Len(o.mean) # s.p \/ ~IsFiniteV(o.mean) THEN {"location_shape_or_nonfinite"}
              ELSE IF ~ModOk(st) THEN {}
              ELSE IF NearV(o.mean, ModMean(s.model, st), RMul("1e-7", RAdd("1e-9", xmax'))) THEN {} ELSE {"location"})

Fails(s, t, st0, st1, w) ==
   IF "err" \in DOMAIN t THEN {"raised:" \o t.err}
   ELSE VolFails(s, t, t.x, w)
        \cup CorrFails(s, t, IF "eps" \in DOMAIN t THEN Standardise(s.model, st0, t.x) ELSE <<>>, ModOk(st0))
        \cup CallFails(s, t, t.x)
        \cup (IF "trained" \in DOMAIN t /\ t.trained THEN {"prototype_trained"} ELSE {})
        \cup ReadFails(s, t, st1)

Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
\* at the first row: the model that was fed the value of series i (values are distinct there)
Assign(t, p) == IF "vol" \notin DOMAIN t THEN <<>>
                ELSE [i \in 1..p |-> LET ks == {k \in 1..Len(t.vol) : Len(t.vol[k].v) = 1 /\ REq(t.vol[k].v[1], t.x[i])}
                                     IN IF ks = {} THEN 0 ELSE t.vol[CHOOSE k \in ks : TRUE].id]
Distinct(w) == \A i, j \in 1..Len(w) : i # j => w[i] # w[j]

Next ==
   LET s == S(sc)  t == s.steps[l]  reset == "reset" \in DOMAIN t
       e0 == IF reset THEN ModInit(s.model, s.p) ELSE e
       w  == IF l = 1 \/ reset THEN Assign(t, s.p) ELSE who
   IN
   /\ l <= Len(s.steps)
   /\ xmax' = RMax(xmax, MaxAbs(<<t.x>>))
   /\ e' = ModStep(s.model, e0, t.x)
   /\ who' = w
   /\ l' = l + 1 /\ sc' = sc
   /\ Report(TLCEval(Fails(s, t, e0, e', w) \cup (IF Distinct(w) THEN {} ELSE {"series_share_a_model"})), sc, l)
   /\ IF "n" \in DOMAIN t /\ (~ModOk(e') \/ Rough(s.model)) THEN PrintT("@@SKIP 1") ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
