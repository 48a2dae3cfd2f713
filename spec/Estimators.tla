----------------------------- MODULE Estimators -----------------------------
(***************************************************************************)
(* The state machine of every shipped covariance estimator: EInit, the     *)
(* transition EStep for one complete observation, and the observable       *)
(* readings ECov (covariance) and EMean (location).                        *)
(*                                                                         *)
(* A state is a record [n, s1, s2, mean, cov, aux, ok]:                    *)
(*   n     number of observations absorbed                                 *)
(*   s1,s2 sum and sum of outer products (only while they are needed: the  *)
(*         warm-up of the empirical-start methods reports plain moments)   *)
(*   mean  the location                                                    *)
(*   cov   the method's running matrix (covariance, shape matrix, ...)     *)
(*   aux   method specific accumulators                                    *)
(*   ok    FALSE once a step needed the inverse of a numerically singular  *)
(*         matrix: from there on the reading is not a continuous function  *)
(*         of the data and the specification leaves it unconstrained       *)
(*         (validity - P07 - is still required).                           *)
(* prm is the record of parameters by their public names.                  *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

\* about 1/r observations of warm-up, between 5 and 250.  (1/r is computed in
\* floating point: an r meant as 1/k must give k, hence the 1e-12.)
BurnN(r) == Min2(250, Max2(5, RCeil(RDiv("0.999999999999", r))))

MaxCond == "1e7"                  \* beyond this an inverse is not trusted
FloorEps == "1e-8"                \* the "always SPD" eigenvalue floor
Tiny12 == "1e-12"                 \* the floor under variances in DCC and composition

Blank(p) == [n |-> 0, s1 |-> VZero(p), s2 |-> MZero(p, p), mean |-> VZero(p),
             cov |-> MZero(p, p), aux |-> 0, ok |-> TRUE]

(* ---- building blocks ---- *)
Deviation(e, x) == VSub(x, e.mean)

\* the plain population moments of everything seen
Moments(e, x) ==
   LET n  == e.n + 1
       s1 == VAdd(e.s1, x)
       s2 == MAdd(e.s2, Outer(x, x))
       m  == VScale(RDiv(1, n), s1)
   IN [e EXCEPT !.n = n, !.s1 = s1, !.s2 = s2, !.mean = m,
                !.cov = MSub(MScale(RDiv(1, n), s2), Outer(m, m))]

\* exponential decay at rate r towards x and towards the matrix A
Decay(e, x, r, A) ==
   [e EXCEPT !.n = e.n + 1, !.mean = VMix(r, e.mean, x), !.cov = MMix(r, e.cov, A)]

Ewa(e, x, r) ==
   IF e.n < BurnN(r) THEN Moments(e, x)
   ELSE LET d == Deviation(e, x) IN Decay(e, x, r, Outer(d, d))

\* weight 1/n during warm-up, r afterwards (methods started from zero)
Weight(n, burn, r) == IF n <= burn THEN RDiv(1, n) ELSE R(r)

CrossSq(A, same) ==               \* sum of the squared cross-block entries of A
   VSum([i \in 1..Len(A) |-> VSum([j \in 1..Len(A) |->
            IF same[i][j] THEN R(0) ELSE RSq(A[i][j])])])
DampCross(A, same, g) ==
   [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF same[i][j] THEN A[i][j] ELSE RMul(g, A[i][j])]]

\* Inverse on the span of the coordinates seen so far.  Coordinates whose row is
\* exactly zero are outside it (pseudo-inverse); anything else must be well
\* conditioned to be trusted.
Support(A) == SelectSeq(Rng(1, Len(A)), LAMBDA i : ~REq(MaxAbs(<<A[i]>>), 0))
TrustInv(A) == LET s == Support(A) IN s # <<>> /\ CondAtMost(MSel(A, s, s), MaxCond)
SupInv(A) == LET s == Support(A) IN MPut(MZero(Len(A), Len(A)), s, s, MInv(MSel(A, s, s)))

(* ---- the recursions ---- *)
HuberStep(prm, p, e, x) ==
   IF e.n < BurnN(prm.r) THEN Moments(e, x)
   ELSE IF ~e.ok \/ ~CondAtMost(e.cov, MaxCond) THEN [e EXCEPT !.n = e.n + 1, !.ok = FALSE]
   ELSE LET d   == Deviation(e, x)
            m2  == Quad(d, MInv(e.cov))
            lim == RMul(RSq(prm.c), p)
            w   == IF RLeq(m2, lim) THEN R(1) ELSE RSqrt(RDiv(lim, m2))
            wd  == VScale(w, d)
        IN [e EXCEPT !.n = e.n + 1, !.mean = VAdd(e.mean, VScale(prm.r, wd)),
                     !.cov = MMix(prm.r, e.cov, Outer(wd, wd))]

AdaptiveStep(prm, p, e, x) ==     \* aux = smoothed surprise
   IF e.n < BurnN(prm.r) THEN Moments(e, x)
   ELSE IF ~e.ok \/ ~CondAtMost(e.cov, MaxCond) THEN [e EXCEPT !.n = e.n + 1, !.ok = FALSE]
   ELSE LET d    == Deviation(e, x)
            m2   == Quad(d, MInv(e.cov))
            sbar == RAdd(RMul("0.9", e.aux), RMul("0.1", RDiv(m2, p)))
            reff == RMin(RMax(RMul(prm.r, sbar), prm.r), prm.max_r)
        IN [Decay(e, x, reff, Outer(d, d)) EXCEPT !.aux = sbar]

LedoitWolfStep(prm, p, e, x) ==   \* aux = tracked mean squared dispersion
   IF e.n < BurnN(prm.r) THEN Moments(e, x)
   ELSE LET d == Deviation(e, x)
            s == Outer(d, d)
            q == RDiv(MSumSq(MSub(s, e.cov)), p)
        IN [Decay(e, x, prm.r, s) EXCEPT
              !.aux = RAdd(RMul(RSub(1, prm.r), e.aux), RMul(prm.r, q))]

SchurLWStep(prm, p, e, x) ==      \* aux = tracked cross-block dispersion
   IF e.n < BurnN(prm.r) THEN Moments(e, x)
   ELSE LET d == Deviation(e, x)
            s == Outer(d, d)
            q == CrossSq(MSub(s, e.cov), SameBlock(p, prm.n_blocks))
        IN [Decay(e, x, prm.r, s) EXCEPT
              !.aux = RAdd(RMul(RSub(1, prm.r), e.aux), RMul(prm.r, q))]

\* the floor is 1e-8, raised for large matrices so that it stays representable next to them
FlooredGeodesic(A, B, g) ==
   LET f == RMax(FloorEps, RMul("1e-14", RMax(RSqrt(MSumSq(A)), RSqrt(MSumSq(B)))))
   IN Geodesic(FloorEig(A, f), FloorEig(B, f), g)
GeodesicStep(prm, p, e, x) ==
   IF e.n < BurnN(prm.r) THEN Moments(e, x)
   ELSE LET d == Deviation(e, x) IN
        [e EXCEPT !.n = e.n + 1, !.mean = VMix(prm.r, e.mean, x),
                  !.cov = FlooredGeodesic(e.cov, Outer(d, d), prm.r)]

DiagonalStep(prm, p, e, x) ==     \* aux = variances
   LET d == Deviation(e, x)
       w == Weight(e.n + 1, BurnN(prm.r), prm.r)
   IN [e EXCEPT !.n = e.n + 1, !.mean = VMix(w, e.mean, x), !.aux = VMix(w, e.aux, VMul(d, d))]

PosPart(v) == [i \in 1..Len(v) |-> RMax(v[i], 0)]
NegPart(v) == [i \in 1..Len(v) |-> RMin(v[i], 0)]
\* aux = scatters of the quadrants (+,+), (-,+), (+,-), (-,-)
PartialMomentsStep(prm, p, e, x) ==
   LET d == Deviation(e, x)
       w == Weight(e.n + 1, BurnN(prm.r), prm.r)
       u == PosPart(d)  l == NegPart(d)
   IN [e EXCEPT !.n = e.n + 1, !.mean = VMix(w, e.mean, x),
                !.aux = << MMix(w, e.aux[1], Outer(u, u)), MMix(w, e.aux[2], Outer(l, u)),
                           MMix(w, e.aux[3], Outer(u, l)), MMix(w, e.aux[4], Outer(l, l)) >>]

\* cov = the shape matrix, trace p, starting from the identity
TylerStep(prm, p, e, x) ==
   LET d == Deviation(e, x)
       w == Weight(e.n + 1, BurnN(prm.r), prm.r)
       moved == [e EXCEPT !.n = e.n + 1, !.mean = VMix(w, e.mean, x)]
       dd == VDot(d, d)
   IN IF ~e.ok THEN moved
      ELSE IF REq(dd, 0) THEN moved            \* no direction, shape unchanged
      ELSE IF ~TrustInv(e.cov) THEN [moved EXCEPT !.ok = FALSE]
      ELSE LET q == RMax(RDiv(Quad(d, SupInv(e.cov)), dd), Tiny12)
               A == MMix(w, e.cov, MScale(RDiv(p, RMul(q, dd)), Outer(d, d)))
           IN [moved EXCEPT !.cov = MScale(RDiv(p, MTrace(A)), A)]

DccBurn(prm) == BurnN(RMin(prm.r, prm.vol_r))
DCCStep(prm, p, e, x) ==          \* aux = per-series variances, cov = quasi-correlation
   LET d   == Deviation(e, x)
       n   == e.n + 1
       wv  == Weight(n, DccBurn(prm), prm.vol_r)
       wc  == Weight(n, DccBurn(prm), prm.r)
       h   == VMix(wv, e.aux, VMul(d, d))
       eps == [i \in 1..p |-> RDiv(d[i], RSqrt(RMax(h[i], Tiny12)))]
   IN [e EXCEPT !.n = n, !.mean = VMix(wv, e.mean, x), !.aux = h,
                !.cov = MMix(wc, e.cov, Outer(eps, eps))]

(* Incremental principal components: aux = [var, V], V a sequence of k      *)
(* vectors whose norm is the eigenvalue and direction the eigenvector.      *)
FactorK(prm, p) == Min2(prm.k, p)
NormV(v) == RSqrt(VDot(v, v))
FactorSweep(V, u0, w) ==
   LET k == Len(V)
       step(acc, j) ==
          IF acc.done THEN acc
          ELSE LET nv == NormV(acc.V[j]) IN
               IF RLt(nv, Tiny12)                \* empty direction: seed it and stop
               THEN [acc EXCEPT !.V[j] = acc.u, !.done = TRUE,
                                !.ok = acc.ok /\ (\/ REq(VDot(u0, u0), 0)
                                                  \/ RLeq(RMul("1e-6", NormV(u0)), NormV(acc.u)))]
               ELSE LET hat  == VScale(RDiv(1, nv), acc.V[j])
                        proj == VDot(acc.u, hat)
                    IN [acc EXCEPT
                          !.V[j] = VAdd(VScale(RSub(1, w), acc.V[j]), VScale(RMul(w, proj), acc.u)),
                          !.u = VSub(acc.u, VScale(proj, hat))]
   IN FoldLeft(step, [V |-> V, u |-> u0, done |-> FALSE, ok |-> TRUE], Rng(1, k))
FactorStep(prm, p, e, x) ==
   LET d == Deviation(e, x)
       w == Weight(e.n + 1, FactorK(prm, p) + 1, prm.r)
       sw == FactorSweep(e.aux.V, d, w)
   IN [e EXCEPT !.n = e.n + 1, !.mean = VMix(w, e.mean, x), !.ok = e.ok /\ sw.ok,
                !.aux = [var |-> VMix(w, e.aux.var, VMul(d, d)), V |-> sw.V]]

(* ---- the readings ---- *)
ScaledId(S) == MScale(RDiv(MTrace(S), Len(S)), MEye(Len(S)))
OffMean(A) == IF Len(A) = 1 THEN R(0)
              ELSE RDiv(RSub(VSum([i \in 1..Len(A) |-> VSum(A[i])]), MTrace(A)), Len(A) * (Len(A) - 1))
ConstCorr(S) ==
   LET sd == [i \in 1..Len(S) |-> RSqrt(RMax(S[i][i], 0))]
       rb == OffMean(CorrOf(S))
   IN [i \in 1..Len(S) |-> [j \in 1..Len(S) |->
         IF i = j THEN S[i][i] ELSE RMul(rb, RMul(sd[i], sd[j]))]]

LWIntensity(prm, e) ==
   LET S == e.cov
       dist == RDiv(MSumSq(MSub(S, ScaledId(S))), Len(S))
   IN IF RLeq(dist, 0) \/ RLeq(e.aux, 0) THEN R(0)
      ELSE RClip(RDiv(RMin(RMul(e.aux, prm.r), dist), dist), 0, 1)

OASIntensity(prm, e) ==
   LET S == e.cov  p == Len(S)
       n   == RMax(RDiv(1, prm.r), 2)
       tr  == MTrace(S)   tr2 == MSumSq(S)      \* tr(S S) for symmetric S
       num == RAdd(RMul(RSub(1, RDiv(2, p)), tr2), RSq(tr))
       den == RMul(RSub(RAdd(n, 1), RDiv(2, p)), RSub(tr2, RDiv(RSq(tr), p)))
   IN IF RLeq(den, RMul("1e-30", RSq(tr))) THEN R(1) ELSE RClip(RDiv(num, den), 0, 1)

SchurLWGamma(prm, e) ==
   LET m2 == CrossSq(e.cov, SameBlock(Len(e.cov), prm.n_blocks))
   IN IF RLeq(m2, 0) THEN R(1) ELSE RClip(RSub(1, RDiv(RMul(e.aux, prm.r), m2)), 0, 1)

NEff(prm, e) == RMax(2, RMin(e.n, RDiv(RSub(2, prm.r), prm.r)))
SchurCondGamma(prm, e) ==
   LET C == CorrOf(e.cov)  p == Len(C)
       same == SameBlock(p, prm.n_blocks)
       ne == NEff(prm, e)
       keep(i, j) == IF same[i][j] THEN R(0)
                     ELSE RMax(0, RSub(RSq(C[i][j]), RDiv(RAdd(1, RSq(C[i][j])), ne)))
       num == VSum([i \in 1..p |-> VSum([j \in 1..p |-> keep(i, j)])])
       den == CrossSq(C, same)
   IN IF Len(Blocks(p, prm.n_blocks)) = 1 THEN R(1)
      ELSE IF RLeq(den, 0) THEN R(0) ELSE RClip(RDiv(num, den), 0, 1)

\* the damped, ridge-regressed block conditionals, reassembled block by block
SchurCondCov(prm, e) ==
   LET p == Len(e.cov)
       C == CorrOf(e.cov)
       B == Blocks(p, prm.n_blocks)
       g == SchurCondGamma(prm, e)
       ne == NEff(prm, e)
       sd == [i \in 1..p |-> RSqrt(RMax(e.cov[i][i], Tiny12))]
       add(G, k) ==
          IF k = 1 THEN MPut(G, B[1], B[1], MSel(C, B[1], B[1]))
          ELSE LET blk == B[k]
                   prev == Rng(1, B[k][1] - 1)
                   np == Len(prev)
                   Rcc == MSel(C, prev, prev)
                   Rck == MSel(C, prev, blk)
                   Rkk == MSel(C, blk, blk)
                   ridge == RClip(RDiv(np, ne), 0, "0.9")
                   reg == MAdd(MMix(ridge, Rcc, DiagM(MDiag(Rcc))), MScale("1e-10", MEye(np)))
                   b == MMul(MInv(reg), Rck)
                   S == FloorEig(MSub(Rkk, MMul(MTrans(Rck), b)), FloorEps)
                   bg == MScale(g, b)
                   Sg == MMix(g, Rkk, S)
                   Gp == MSel(G, prev, prev)
                   low == MMul(MTrans(bg), Gp)
               IN MPut(MPut(MPut(G, blk, prev, low), prev, blk, MTrans(low)),
                       blk, blk, MAdd(Sg, MMul(low, bg)))
       G == FoldLeft(add, MZero(p, p), Rng(1, Len(B)))
   IN MHad(FloorEig(G, FloorEps), Outer(sd, sd))

BlockDiag(S, nb) == DampCross(S, SameBlock(Len(S), nb), 0)
BlockFloor(S, nb) ==
   FoldLeft(LAMBDA G, b : MPut(G, b, b, FloorEig(MSel(S, b, b), FloorEps)),
            MZero(Len(S), Len(S)), Blocks(Len(S), nb))

DCCCov(e) ==
   LET p == Len(e.cov)
       qi == [i \in 1..p |-> RDiv(1, RSqrt(RMax(e.cov[i][i], Tiny12)))]
       sd == [i \in 1..p |-> RSqrt(RMax(e.aux[i], Tiny12))]
   IN MHad(MHad(e.cov, Outer(qi, qi)), Outer(sd, sd))

FactorCov(e) ==
   LET p == Len(e.mean)
       norms == [j \in 1..Len(e.aux.V) |-> NormV(e.aux.V[j])]
       F == FoldLeft(LAMBDA G, j : IF RLeq(norms[j], Tiny12) THEN G
                                  ELSE MAdd(G, MScale(RDiv(1, norms[j]), Outer(e.aux.V[j], e.aux.V[j]))),
                     MZero(p, p), Rng(1, Len(e.aux.V)))
       res == [i \in 1..p |-> RMax(RSub(e.aux.var[i], F[i][i]), 0)]
   IN MAdd(F, DiagM(res))

(* ---- the catalogue ---- *)
Classes == { "EmpiricalCovariance", "DiagonalCovariance", "BlockCovariance", "EwaCovariance",
             "AdaptiveEwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance",
             "SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance",
             "PartialMomentsCovariance", "HuberCovariance", "TylerCovariance",
             "GeodesicEwaCovariance", "DCCCovariance", "FactorCovariance" }

EInit(cls, prm, p) ==
   LET b == Blank(p) IN
   CASE cls = "AdaptiveEwaCovariance" -> [b EXCEPT !.aux = R(1)]
     [] cls \in {"LedoitWolfCovariance", "SchurLedoitWolfCovariance"} -> [b EXCEPT !.aux = R(0)]
     [] cls = "DiagonalCovariance" -> [b EXCEPT !.aux = VZero(p)]
     [] cls = "PartialMomentsCovariance" ->
          [b EXCEPT !.aux = <<MZero(p, p), MZero(p, p), MZero(p, p), MZero(p, p)>>]
     [] cls = "TylerCovariance" -> [b EXCEPT !.cov = MEye(p)]
     [] cls = "DCCCovariance" -> [b EXCEPT !.cov = MEye(p), !.aux = VOnes(p)]
     [] cls = "FactorCovariance" ->
          [b EXCEPT !.aux = [var |-> VZero(p), V |-> [j \in 1..FactorK(prm, p) |-> VZero(p)]]]
     [] OTHER -> b

EStep(cls, prm, e, x) ==
   LET p == Len(x) IN
   TLCEval(
   CASE cls = "EmpiricalCovariance"        -> Moments(e, x)
     [] cls = "DiagonalCovariance"         -> DiagonalStep(prm, p, e, x)
     [] cls = "AdaptiveEwaCovariance"      -> AdaptiveStep(prm, p, e, x)
     [] cls = "LedoitWolfCovariance"       -> LedoitWolfStep(prm, p, e, x)
     [] cls = "SchurLedoitWolfCovariance"  -> SchurLWStep(prm, p, e, x)
     [] cls = "PartialMomentsCovariance"   -> PartialMomentsStep(prm, p, e, x)
     [] cls = "HuberCovariance"            -> HuberStep(prm, p, e, x)
     [] cls = "TylerCovariance"            -> TylerStep(prm, p, e, x)
     [] cls = "GeodesicEwaCovariance"      -> GeodesicStep(prm, p, e, x)
     [] cls = "DCCCovariance"              -> DCCStep(prm, p, e, x)
     [] cls = "FactorCovariance"           -> FactorStep(prm, p, e, x)
     [] cls \in {"EwaCovariance", "BlockCovariance", "OASCovariance", "ShrunkCovariance",
                 "SchurCovariance", "SchurConditionalCovariance"} -> Ewa(e, x, prm.r))

EMean(e) == e.mean

ECov(cls, prm, e) ==
   LET S == e.cov  p == Len(e.mean) IN
   TLCEval(
   CASE cls \in {"EmpiricalCovariance", "EwaCovariance", "AdaptiveEwaCovariance",
                 "HuberCovariance", "GeodesicEwaCovariance"} -> S
     [] cls = "DiagonalCovariance"       -> DiagM(e.aux)
     [] cls = "BlockCovariance"          -> BlockFloor(S, prm.n_blocks)
     [] cls = "LedoitWolfCovariance"     -> MMix(LWIntensity(prm, e), S, ScaledId(S))
     [] cls = "OASCovariance"            -> MMix(OASIntensity(prm, e), S, ScaledId(S))
     [] cls = "ShrunkCovariance"         ->
          MMix(prm.delta, S, IF prm.target = "identity" THEN ScaledId(S) ELSE ConstCorr(S))
     [] cls = "SchurCovariance"          ->
          IF prm.interpolation = "geodesic"
          THEN FlooredGeodesic(BlockDiag(S, prm.n_blocks), S, prm.gamma)
          ELSE FloorEig(DampCross(S, SameBlock(p, prm.n_blocks), prm.gamma), FloorEps)
     [] cls = "SchurLedoitWolfCovariance" ->
          FloorEig(DampCross(S, SameBlock(p, prm.n_blocks), SchurLWGamma(prm, e)), FloorEps)
     [] cls = "SchurConditionalCovariance" -> SchurCondCov(prm, e)
     [] cls = "PartialMomentsCovariance" -> MAdd(MAdd(e.aux[1], e.aux[2]), MAdd(e.aux[3], e.aux[4]))
     [] cls = "TylerCovariance"          -> CorrOf(S)
     [] cls = "DCCCovariance"            -> DCCCov(e)
     [] cls = "FactorCovariance"         -> FactorCov(e))

\* the damping reported by the data-driven Schur variants
EGamma(cls, prm, e) == IF cls = "SchurLedoitWolfCovariance" THEN SchurLWGamma(prm, e)
                       ELSE SchurCondGamma(prm, e)

(* ---- tolerant comparison with a recorded reading ---- *)
(* Floating point rounds; the specification is exact.  A reading agrees when *)
(* it is within rel of the scale sqrt(E_ii E_jj) of each entry, plus a tiny  *)
(* multiple of the largest entry and of the squared magnitude of the inputs  *)
(* (a covariance of numbers of size M cannot be resolved below 1e-22 M^2...  *)
(* the constants leave at least six digits of slack over observed rounding). *)
\* The geodesic estimator decides a matrix with eigenvalues down to its floor 1e-8 from outer products of
\* size xmax^2, whose own rounding is 1e-16 xmax^2.
GeoTol(xmax) == RMul("2e-5", RAdd(2, RSq(xmax)))
AgreeCov(cls, O, E, xmax) ==
   IF cls = "GeodesicEwaCovariance"
   THEN CloseM(O, E, GeoTol(xmax), RAdd(RMul(GeoTol(xmax), MaxAbs(E)), "1e-10"))
   ELSE CloseM(O, E, "1e-7", RAdd(RMul("1e-10", MaxAbs(E)), RAdd(RMul("1e-20", RSq(xmax)), "1e-200")))
AgreeMean(o, e, xmax) == NearV(o, e, RAdd(RMul("1e-9", xmax), "1e-300"))
=============================================================================
