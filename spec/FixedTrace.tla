----------------------------- MODULE FixedTrace -----------------------------
(***************************************************************************)
(* Trace validation of FixedUniverse: each recorded update is FUpdate on   *)
(* the names, its symbolic vector is filled in with the recorded values    *)
(* and the location of the wrapped estimator's own state machine, which    *)
(* then takes one EStep; recorded covariances must agree.                  *)
(***************************************************************************)
EXTENDS FixedUniverse, Estimators, Json, IOUtils

Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, f, e, xmax
vars == <<sc, l, f, e, xmax>>
View == <<sc, l>>

Init == /\ sc \in 1..Len(Scen) /\ l = 1
        /\ f = FInit(Scen[sc].given)
        /\ e = EInit(Scen[sc].cls, Scen[sc].prm, Scen[sc].p)
        /\ xmax = R(0)

ValueOf(s, t, k) == LET ev == s.events[t] IN ev.vals[CHOOSE j \in 1..Len(ev.names) : ev.names[j] = k]
Resolve(s, f1, e0) ==
   [i \in 1..Len(f1.keys) |->
      LET tok == f1.fed[i] IN
      IF tok.from = "val" THEN ValueOf(s, tok.t, f1.keys[i])
      ELSE IF tok.from = "mean" /\ e0.n > 0 THEN EMean(e0)[i] ELSE R(0)]

Shaped(A, p) == /\ Len(A) = p /\ (\A i \in 1..p : Len(A[i]) = p) /\ IsFiniteM(A)
Fails(s, o, f1, e1, xm) ==
   IF "err" \in DOMAIN o THEN {"raised:" \o o.err}
   ELSE (IF o.keys = f1.keys THEN {} ELSE {"universe"})
        \cup (IF ~Shaped(o.cov, s.p) THEN {"covariance_shape_or_nonfinite"}
              ELSE IF ~e1.ok \/ AgreeCov(s.cls, o.cov, ECov(s.cls, s.prm, e1), xm) THEN {} ELSE {"covariance"})

Report(fs, k, i) == IF fs = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> fs]))

Next == LET s == Scen[sc] IN
   /\ l <= Len(s.events)
   /\ LET ev == s.events[l] IN
      /\ f' = FUpdate(f, ev.names, s.impute)
      /\ LET y == TLCEval(Resolve(s, f', e)) IN
         /\ e' = EStep(s.cls, s.prm, e, y)
         /\ xmax' = RMax(xmax, VMaxAbs(y))
      /\ Report(TLCEval(Fails(s, ev.obs, f', e', xmax')), sc, l)
   /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
