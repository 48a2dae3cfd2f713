---------------------------- MODULE Conditional ----------------------------
(***************************************************************************)
(* Composition  H = D R D.  A model is                                     *)
(*   [kind |-> "est", cls, prm]            an estimator (Estimators.tla)   *)
(*   [kind |-> "skater", a, b]             a univariate forecaster         *)
(*   [kind |-> "cond", vol, corr]          a composition of two models     *)
(* and has a state, a step per complete observation, a covariance, and a   *)
(* location.  Compositions nest.                                           *)
(***************************************************************************)
EXTENDS Estimators

RECURSIVE ModInit(_, _), ModStep(_, _, _), ModCov(_, _), ModMean(_, _), ModOk(_), ModSeen(_)

\* The univariate forecaster handed to from_skater in the runs: exponential smoothing
\* of the level at rate a and of the absolute error at rate b, forecasting one step ahead.
SkInit == [n |-> 0, mean |-> R(0), std |-> R(1)]
SkStep(m, e, y) ==
   [n |-> e.n + 1,
    mean |-> RAdd(RMul(RSub(1, m.a), e.mean), RMul(m.a, y)),
    std |-> RAdd(RMul(RSub(1, m.b), e.std), RMul(m.b, RAdd(RAbs(RSub(y, e.mean)), "0.125")))]

ModSeen(e) == e.n
ModInit(m, p) ==
   CASE m.kind = "est" -> EInit(m.cls, m.prm, p)
     [] m.kind = "skater" -> SkInit
     [] m.kind = "cond" -> [n |-> 0, vol |-> [i \in 1..p |-> ModInit(m.vol, 1)], corr |-> ModInit(m.corr, p)]

\* what a volatility model forecasts for its next value
Forecast(v, e) == IF e.n = 0 THEN [mean |-> R(0), var |-> R(1)]
                  ELSE [mean |-> ModMean(v, e)[1], var |-> ModCov(v, e)[1][1]]
Standardise(m, e, x) ==
   [i \in 1..Len(x) |-> LET f == Forecast(m.vol, e.vol[i])
                        IN RDiv(RSub(x[i], f.mean), RSqrt(RMax(f.var, Tiny12)))]

ModStep(m, e, x) ==
   CASE m.kind = "est" -> EStep(m.cls, m.prm, e, x)
     [] m.kind = "skater" -> TLCEval(SkStep(m, e, x[1]))
     [] m.kind = "cond" ->
          TLCEval([n |-> e.n + 1,
                   vol |-> [i \in 1..Len(x) |-> ModStep(m.vol, e.vol[i], <<x[i]>>)],
                   corr |-> ModStep(m.corr, e.corr, Standardise(m, e, x))])

ModMean(m, e) ==
   CASE m.kind = "est" -> EMean(e)
     [] m.kind = "skater" -> <<e.mean>>
     [] m.kind = "cond" -> [i \in 1..Len(e.vol) |-> ModMean(m.vol, e.vol[i])[1]]

Vol(m, e, i) == RMax(ModCov(m.vol, e.vol[i])[1][1], Tiny12)
ModCov(m, e) ==
   CASE m.kind = "est" -> ECov(m.cls, m.prm, e)
     [] m.kind = "skater" -> <<<<RSq(e.std)>>>>
     [] m.kind = "cond" ->
          LET sd == [i \in 1..Len(e.vol) |-> RSqrt(Vol(m, e, i))]
          IN MHad(CorrOf(ModCov(m.corr, e.corr)), Outer(sd, sd))

ModOk(e) == IF "ok" \in DOMAIN e THEN e.ok
            ELSE IF "vol" \in DOMAIN e THEN ModOk(e.corr) /\ \A i \in 1..Len(e.vol) : ModOk(e.vol[i])
            ELSE TRUE
=============================================================================
