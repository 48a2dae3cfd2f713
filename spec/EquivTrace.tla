----------------------------- MODULE EquivTrace -----------------------------
(***************************************************************************)
(* Recorded pairs of runs: the same estimator fed a stream and the         *)
(* transformed stream.  The readings of the second have to be the          *)
(* transformed readings of the first.  The specification's own state is    *)
(* carried along only to know when a numerically singular inverse leaves   *)
(* the reading unconstrained.  xmax is the size of the transformed stream,  *)
(* the only scale the tolerances refer to.                                 *)
(***************************************************************************)
EXTENDS Equivariance, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, e, xmax
vars == <<sc, l, e, xmax>>
View == <<sc, l>>
S(k) == Scen[k]
Init == /\ sc \in 1..Len(Scen) /\ l = 1 /\ xmax = R(0)
        /\ e = EInit(S(sc).cls, S(sc).prm, S(sc).p)
Shaped(A, p) == /\ Len(A) = p /\ (\A i \in 1..p : Len(A[i]) = p) /\ IsFiniteM(A)
Fails(s, o, ok, big) ==
   IF o = <<>> THEN {}
   ELSE IF "err" \in DOMAIN o THEN {"raised:" \o o.err}
   ELSE IF ~Shaped(o.cov, s.p) \/ ~Shaped(o.cov2, s.p) THEN {"covariance_shape_or_nonfinite"}
   ELSE IF Len(o.mean) # s.p \/ Len(o.mean2) # s.p \/ ~IsFiniteV(o.mean) \/ ~IsFiniteV(o.mean2) THEN {"location_shape_or_nonfinite"}
   ELSE IF ~ok THEN {}
   ELSE LET E == TLCEval(MovedCov(s.cls, s.kind, s.A, o.cov))
            M == MovedMean(s.A, s.b, o.mean)
        IN (IF CloseM(o.cov2, E, s.tol, RAdd(RMul("1e-9", MaxAbs(E)), RMul("1e-14", RSq(big)))) THEN {} ELSE {"covariance_not_" \o s.kind})
           \cup (IF NearV(o.mean2, M, RMul("1e-9", big)) THEN {} ELSE {"location_not_" \o s.kind})
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == LET s == S(sc) IN
   /\ l <= Len(s.rows)
   /\ Assert(s.cls \in Promise(s.kind), "not promised")
   /\ LET x == s.rows[l] IN
      /\ e' = EStep(s.cls, s.prm, e, x)
      /\ xmax' = RMax(xmax, RMax(RAdd(RMul(MaxAbs(s.A), MaxAbs(<<x>>)), MaxAbs(<<s.b>>)), MaxAbs(<<Moved(s.A, s.b, x)>>)))
   /\ l' = l + 1 /\ sc' = sc
   /\ Report(TLCEval(Fails(s, s.obs[l], e'.ok, xmax')), sc, l)
   /\ IF s.obs[l] # <<>> /\ ~e'.ok THEN PrintT("@@SKIP 1") ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
