------------------------------ MODULE EstTrace ------------------------------
(***************************************************************************)
(* Trace validation of recorded estimator runs.  A scenario is one run of  *)
(* the real code: the rows fed (one per step) and, at some steps, what its *)
(* public attributes reported.  Each step is the specification's EStep on  *)
(* the recorded row (the differencing front end included); every recorded  *)
(* reading is compared with the specification's.                           *)
(***************************************************************************)
EXTENDS Estimators, Json, IOUtils

Scen == JsonDeserialize(IOEnv.TRACE)

VARIABLES sc,      \* which scenario
          l,       \* next row
          e,       \* estimator state
          prev,    \* pending level when differencing, <<>> if none
          xmax     \* largest magnitude fed so far
vars == <<sc, l, e, prev, xmax>>
View == <<sc, l>>

S(k) == Scen[k]

Init == /\ sc \in 1..Len(Scen)
        /\ l = 1
        /\ e = EInit(S(sc).cls, S(sc).prm, S(sc).p)
        /\ prev = <<>>
        /\ xmax = R(0)

Shaped(A, p) == /\ Len(A) = p /\ (\A i \in 1..p : Len(A[i]) = p) /\ IsFiniteM(A)

CovFails(s, o, st) ==
   IF "cov" \notin DOMAIN o THEN {}
   ELSE IF ~Shaped(o.cov, s.p) THEN {"covariance_shape_or_nonfinite"}
   ELSE IF ~st.ok THEN {}
   ELSE LET E == ECov(s.cls, s.prm, st)
            good == IF "tol" \in DOMAIN s
                    THEN CloseM(o.cov, E, s.tol, RAdd(RMul(s.tol, MaxAbs(E)), "1e-12"))
                    ELSE AgreeCov(s.cls, o.cov, E, xmax')
        IN IF good THEN {} ELSE {"covariance"}
MeanFails(s, o, st) ==
   IF "mean" \notin DOMAIN o THEN {}
   ELSE IF Len(o.mean) # s.p \/ ~IsFiniteV(o.mean) THEN {"location_shape_or_nonfinite"}
   ELSE IF ~st.ok /\ s.cls \in {"HuberCovariance", "AdaptiveEwaCovariance"} THEN {}
   ELSE IF AgreeMean(o.mean, EMean(st), xmax') THEN {} ELSE {"location"}
GammaFails(s, o, st) ==
   IF "gamma" \notin DOMAIN o THEN {}
   ELSE IF ~RIsFinite(o.gamma) THEN {"gamma_nonfinite"}
   ELSE IF NearR(o.gamma, EGamma(s.cls, s.prm, st), "1e-6") THEN {} ELSE {"gamma"}
PrecFails(s, o, st) ==        \* the block estimator's block-wise inverse
   IF "prec" \notin DOMAIN o THEN {}
   ELSE IF ~Shaped(o.prec, s.p) THEN {"precision_shape_or_nonfinite"}
   ELSE LET B == Blocks(s.p, s.prm.n_blocks)
            same == SameBlock(s.p, s.prm.n_blocks)
            E(b) == FloorEig(MSel(st.cov, B[b], B[b]), FloorEps)
        IN IF /\ \A i, j \in 1..s.p : same[i][j] \/ REq(o.prec[i][j], 0)
              /\ \A b \in 1..Len(B) : CondAtMost(E(b), "1e6") =>
                    CloseM(MSel(o.prec, B[b], B[b]), MInv(E(b)), "1e-6", 
                           RMul("1e-6", MaxAbs(MInv(E(b)))))
           THEN {} ELSE {"block_precision"}
QuadFails(s, o, st) ==        \* the four quadrant scatters
   IF "quad" \notin DOMAIN o THEN {}
   ELSE IF \E q \in 1..4 : ~Shaped(o.quad[q], s.p) THEN {"quadrant_shape_or_nonfinite"}
   ELSE IF \A q \in 1..4 : NearM(o.quad[q], st.aux[q],
                             RAdd(RMul("1e-8", MaxAbs(st.aux[q])), RMul("1e-20", RSq(xmax'))))
        THEN {} ELSE {"quadrants"}
ShapeFails(s, o, st) ==       \* Tyler's trace-p shape matrix
   IF "C" \notin DOMAIN o THEN {}
   ELSE IF ~Shaped(o.C, s.p) THEN {"shape_matrix_nonfinite"}
   ELSE IF ~NearR(MTrace(o.C), s.p, "1e-9") THEN {"shape_matrix_trace"}
   ELSE IF ~st.ok \/ CloseM(o.C, st.cov, "1e-6", "1e-6") THEN {} ELSE {"shape_matrix"}

Fails(s, o, st) ==
   IF o = <<>> THEN {}
   ELSE IF "err" \in DOMAIN o THEN {"raised:" \o o.err}
   ELSE (IF "n" \in DOMAIN o /\ o.n # st.n THEN {"n_samples"} ELSE {})
        \cup CovFails(s, o, st) \cup MeanFails(s, o, st) \cup GammaFails(s, o, st)
        \cup PrecFails(s, o, st) \cup QuadFails(s, o, st) \cup ShapeFails(s, o, st)

Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))

Next ==
   LET s == S(sc) IN
   /\ l <= Len(s.rows)
   /\ LET x == s.rows[l] IN
      /\ xmax' = RMax(xmax, MaxAbs(<<x>>))
      /\ IF s.diff /\ prev = <<>> THEN e' = e
         ELSE e' = EStep(s.cls, s.prm, e, IF s.diff THEN VSub(x, prev) ELSE x)
      /\ prev' = IF s.diff THEN x ELSE prev
      /\ l' = l + 1
      /\ sc' = sc
      /\ Report(TLCEval(Fails(s, s.obs[l], e')), sc, l)

Spec == Init /\ [][Next]_vars
=============================================================================
