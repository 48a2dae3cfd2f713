----------------------------- MODULE SchurTrace -----------------------------
(***************************************************************************)
(* Recorded calls of research/schur_*.py judged against SchurTheory.       *)
(***************************************************************************)
EXTENDS SchurTheory, Json, IOUtils
Calls == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>
View == vars
Init == sc \in 1..Len(Calls) /\ l = 1
Fail(ok, nm) == IF ok THEN {} ELSE {nm}
NearTo(x, y, scale) == RIsFinite(x) /\ RLeq(RAbs(RSub(x, y)), RMul("1e-7", scale))
MatNear(G, W, scale) == Len(G) = Len(W) /\ \A i \in 1..Len(W) : Len(G[i]) = Len(W[i]) /\ \A j \in 1..Len(W) : NearTo(G[i][j], W[i][j], scale)
Scale(T, o) == RAdd(RAdd(1, RAbs(o.Ld)), RAbs(MTrace(MMul(o.W, T))))
Fails(t) ==
  IF "err" \in DOMAIN t THEN {t.kind \o "_raised:" \o t.err} ELSE
  CASE t.kind = "op" ->
         (LET o == TLCEval(Op(t.C, t.sizes, t.g)) IN
          Fail(MatNear(t.W, o.W, MaxAbs(o.W)), "operator") \cup Fail(NearTo(t.Ld, o.Ld, RAdd(RAbs(o.Ld), Len(t.C))), "log_determinant"))
    [] t.kind = "snr" ->
         (LET a == TLCEval(Op(t.A, t.sizes, t.g))  b == TLCEval(Op(t.B, t.sizes, t.g))
              size == TLCEval(RAdd(Scale(t.T, a), Scale(t.T, b)))
              M == TLCEval(MMul(MSub(a.W, b.W), t.T))
              sd == TLCEval(RSqrt(RMax(0, RMul("0.5", MTrace(MMul(M, M))))))
              mu == TLCEval(RMul("-0.5", RAdd(RSub(a.Ld, b.Ld), MTrace(M))))
          IN IF RLt(sd, RMul("1e-8", size)) THEN {}
             ELSE Fail(NearTo(t.ab, RDiv(mu, sd), RAdd(RMul("1e-4", RDiv(size, sd)), RAbs(RDiv(mu, sd)))), "discrimination_ratio")
                  \cup Fail(NearTo(t.ba, RNeg(RDiv(mu, sd)), RAdd(RMul("1e-4", RDiv(size, sd)), RAbs(RDiv(mu, sd)))), "discrimination_ratio_swapped"))
    [] t.kind = "mc" ->    \* simulated from n draws: eight standard errors
         (LET v == GapVar(t.A, t.B, t.T, t.sizes, t.g)
              r == TLCEval(RDiv(Gap(t.A, t.B, t.T, t.sizes, t.g), RSqrt(v)))
          IN Fail(RIsFinite(t.v) /\ RLeq(RAbs(RSub(t.v, r)), RMul(8, RSqrt(RDiv(RAdd(1, RMul(4, RSq(r))), t.n)))), "simulated_ratio"))
    [] t.kind = "ell" ->
         (LET s == TLCEval(Slack(t.C, t.sizes, t.g))  m == MaxAbs(t.C) IN
          IF RLeq(s, RMul("-1e-6", m)) THEN Fail(t.v = "-inf", "expected_score_outside_the_cone")
          ELSE IF RLt(s, RMul("1e-4", m)) THEN {}
          ELSE LET o == TLCEval(Op(t.C, t.sizes, t.g)) IN
               Fail(NearTo(t.v, RMul("-0.5", RAdd(o.Ld, MTrace(MMul(o.W, t.T)))), Scale(t.T, o)), "expected_score"))
    [] t.kind = "best" ->
         (LET C == TLCEval(ClosedForm(t.T, t.sizes, t.g)) IN Fail(MatNear(t.C, C, MaxAbs(C)), "maximiser"))
    [] t.kind = "two" ->   \* scalar pair
         (LET T == TLCEval(Truth2(t.a, t.b, t.s))
              C == TLCEval(ClosedForm(T, <<1, 1>>, t.g))
              r == TLCEval(Rho2(t.a, t.b, t.s))
              d == TLCEval(Inside(r, t.g))
              E == <<<<t.cand[1], t.cand[2]>>, <<t.cand[2], t.cand[3]>>>>
              s == TLCEval(RSub(E[2][2], RMul(t.g, RDiv(RSq(E[1][2]), E[1][1]))))
          IN Fail(MatNear(<<<<t.best[1], t.best[2]>>, <<t.best[2], t.best[3]>>>>, C, MaxAbs(C)), "maximiser")
             \cup (IF RLt(RAbs(d), "1e-9") THEN {} ELSE Fail(t.holds = RLt(0, d), "is_a_covariance"))
             \cup (IF RLt(r, "1e-6") \/ RLt("0.999999", r) THEN {} ELSE Fail(t.thr # "none" => NearTo(t.thr, Threshold(r), 1), "threshold"))
             \cup (IF RLt(s, "-1e-6") THEN Fail(t.v = "-inf", "expected_score_outside_the_cone")
                   ELSE IF RLt(s, RMul("1e-4", E[2][2])) THEN {}
                   ELSE LET o == TLCEval(Op(E, <<1, 1>>, t.g)) IN
                        Fail(NearTo(t.v, RMul("-0.5", RAdd(o.Ld, MTrace(MMul(o.W, T)))), Scale(T, o)), "expected_score")))
    [] t.kind = "canon" ->
         (LET v == TLCEval(Canon(t.C, t.p1)) IN
          Fail(Len(t.v) = Len(v) /\ \A i \in 1..Len(v) : NearTo(t.v[i], v[i], 1), "canonical_correlations"))
    [] t.kind = "cone" ->  \* two blocks: the maximiser is a covariance exactly above the threshold of the top canonical correlation
         (LET r == TLCEval(Canon(t.T, t.sizes[1])[1])  d == Inside(r, t.g) IN
          IF RLt(RAbs(d), "1e-5") THEN {} ELSE Fail(t.spd = RLt(0, d), "is_a_covariance"))
    [] t.kind = "trust" -> Fail(NearTo(t.v, Trust(t.n, t.r), 1), "optimal_trust")
    [] t.kind = "risk" ->  \* simulated: exact without coupling, within a fifth of the excess elsewhere
         (LET at0 == Risk(0, t.a, t.b, t.s, t.n)  w == TLCEval(Risk(t.g, t.a, t.b, t.s, t.n)) IN
          Fail(NearTo(t.zero, at0, RAdd(1, at0)), "risk_without_coupling")
          \cup Fail(RIsFinite(t.v) /\ RLeq(t.s, RAdd(t.v, "1e-9")) /\ RLeq(RAbs(RSub(t.v, w)), RAdd(RMul("0.2", RSub(w, t.s)), "1e-9")), "risk"))
    [] t.kind = "kl" -> (LET d == TLCEval(Div(t.C, t.T)) IN Fail(NearTo(t.v, d, RAdd(RAdd(d, Len(t.C)), MTrace(MMul(MInv(t.C), t.T)))), "divergence"))
    [] t.kind = "delta" ->
         (LET A == TLCEval(ShrinkTo(t.T, t.al))  B == TLCEval(ShrinkTo(t.T, t.be))
              a == TLCEval(Op(A, t.sizes, t.g))  b == TLCEval(Op(B, t.sizes, t.g))
              size == TLCEval(RAdd(Scale(t.T, a), Scale(t.T, b)))
              G == TLCEval(GapGrad(t.T, t.sizes, t.g, t.al, t.be))
              sd == TLCEval(RSqrt(RMax(0, SampleVar(G, t.T, t.n))))
              twice == TLCEval(RSqrt(RMax(0, SampleVar(Twice(G), t.T, t.n))))
              Is(x) == RIsFinite(t.sd) /\ RLeq(RAbs(RSub(t.sd, x)), RMul("1e-3", x))
              used == TLCEval(IF ~Is(sd) /\ Is(twice) THEN twice ELSE sd)
          IN Fail(NearTo(t.mean, RMul("-0.5", RAdd(RSub(a.Ld, b.Ld), MTrace(MMul(MSub(a.W, b.W), t.T)))), size), "score_gap")
             \cup (IF RLt(sd, RMul("1e-3", size)) THEN {}
                   ELSE (IF Is(sd) THEN {} ELSE IF Is(twice) THEN {"first_order_deviation_counts_covariances_twice"} ELSE {"first_order_deviation"})
                        \cup Fail(RIsFinite(t.ratio) /\ RLeq(RAbs(RSub(RMul(t.ratio, used), t.mean)), RMul("2e-3", RAdd(RAbs(t.mean), used))), "first_order_ratio")))
    [] OTHER -> {"unknown_call"}
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> sc, l |-> l, fails |-> f]))
Next == /\ l <= 1
        /\ \E t \in {Calls[sc]} : Report(TLCEval(Fails(t)))
        /\ l' = 2 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
