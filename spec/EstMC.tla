------------------------------- MODULE EstMC -------------------------------
(***************************************************************************)
(* Design checks of the estimators' state machines: every stream of small  *)
(* integer rows to a length that crosses the warm-up.                      *)
(*  Sound      readings are symmetric, positive semi-definite matrices     *)
(*  Plain      the moments of the warm-up are those of the rows, computed  *)
(*             directly from the history                                   *)
(*  Closed     the exponentially weighted mean in closed form              *)
(*  Structure  what each method promises of its readings whatever the data *)
(*  Collapse   a method whose parameters switch off its speciality is the  *)
(*             method it specialises (two machines run side by side)       *)
(***************************************************************************)
EXTENDS Estimators
CONSTANTS Cls, Depth, Dims
Half == "0.5"
P0 == [none |-> 0]
PE == [r |-> Half]
PB(nb) == [r |-> Half, n_blocks |-> nb]
PS(nb, g, how) == [r |-> Half, n_blocks |-> nb, gamma |-> g, interpolation |-> how]
\* the parameters explored for each class, and the machine each setting collapses onto (or itself)
Settings(c) ==
   CASE c = "EmpiricalCovariance" -> {<<P0, c, P0>>}
     [] c = "AdaptiveEwaCovariance" -> {<<[r |-> Half, max_r |-> "0.9"], c, [r |-> Half, max_r |-> "0.9"]>>,
                                        <<[r |-> Half, max_r |-> Half], "EwaCovariance", PE>>}
     [] c = "ShrunkCovariance" -> {<<[r |-> Half, delta |-> "0.5", target |-> "constant_correlation"], c,
                                     [r |-> Half, delta |-> "0.5", target |-> "constant_correlation"]>>,
                                   <<[r |-> Half, delta |-> "0.5", target |-> "identity"], c,
                                     [r |-> Half, delta |-> "0.5", target |-> "identity"]>>,
                                   <<[r |-> Half, delta |-> "0", target |-> "identity"], "EwaCovariance", PE>>}
     [] c = "BlockCovariance" -> {<<PB(2), c, PB(2)>>, <<PB(2), "SchurCovariance", PS(2, "0", "linear")>>,
                                  <<PB(1), "EwaCovariance", PE>>}
     [] c = "SchurCovariance" -> {<<PS(2, Half, "linear"), c, PS(2, Half, "linear")>>,
                                  <<PS(2, "1", "linear"), "EwaCovariance", PE>>,
                                  <<PS(1, "0", "linear"), "EwaCovariance", PE>>,
                                  <<PS(2, "0", "linear"), c, PS(2, "0", "geodesic")>>,
                                  <<PS(2, "1", "linear"), c, PS(2, "1", "geodesic")>>}
     [] c \in {"SchurConditionalCovariance", "SchurLedoitWolfCovariance"} ->
           {<<PB(2), c, PB(2)>>, <<PB(1), "EwaCovariance", PE>>}
     [] c = "HuberCovariance" -> {<<[r |-> Half, c |-> 1], c, [r |-> Half, c |-> 1]>>,
                                  <<[r |-> Half, c |-> 1000], "EwaCovariance", PE>>}
     [] c = "DCCCovariance" -> {<<[r |-> Half, vol_r |-> "0.4"], c, [r |-> Half, vol_r |-> "0.4"]>>}
     [] c = "FactorCovariance" -> {<<[r |-> Half, k |-> 1], c, [r |-> Half, k |-> 1]>>,
                                   <<[r |-> Half, k |-> 2], c, [r |-> Half, k |-> 2]>>}
     [] c = "DiagonalCovariance" -> {<<PE, c, PE>>, <<PE, "PartialMomentsCovariance", PE>>}
     [] OTHER -> {<<PE, c, PE>>}
Alphabet(p) == IF p = 1 THEN {<<1>>, <<-2>>, <<4>>}
               ELSE IF p = 2 THEN {<<1, 0>>, <<-2, 1>>, <<3, 2>>} ELSE {<<1, 0, 2>>, <<-2, 1, 1>>, <<0, 3, -1>>}

VARIABLES cls, set, dim, e, f, hist
vars == <<cls, set, dim, e, f, hist>>
View == <<cls, set, dim, hist>>
Init == cls = "" /\ set = <<>> /\ dim = 0 /\ e = 0 /\ f = 0 /\ hist = <<>>
Choose_ == /\ cls = ""
           /\ \E c \in Cls, p \in Dims : \E s \in Settings(c) :
                 /\ cls' = c /\ dim' = p /\ set' = s
                 /\ e' = EInit(c, s[1], p) /\ f' = EInit(s[2], s[3], p)
           /\ UNCHANGED hist
Feed == /\ cls # "" /\ Len(hist) < Depth
        /\ \E x \in Alphabet(dim) :
              /\ e' = EStep(cls, set[1], e, x) /\ f' = EStep(set[2], set[3], f, x)
              /\ hist' = Append(hist, x)
        /\ UNCHANGED <<cls, set, dim>>
Next == Choose_ \/ Feed
Spec == Init /\ [][Next]_vars

Cov == ECov(cls, set[1], e)
Sym(A) == \A i, j \in 1..Len(A) : NearR(A[i][j], A[j][i], "1e-30")
Psd(A) == RLeq(RNeg(RMul("1e-25", RAdd(1, MaxAbs(A)))), MinEig(MSym(A)))
Started == Len(hist) > 0
Sound == Started /\ e.ok => LET A == Cov IN Sym(A) /\ Psd(A)

\* directly from the history
HMean(h) == VScale(RDiv(1, Len(h)), FoldLeft(VAdd, VZero(dim), h))
HCov(h) == LET m == TLCEval(HMean(h)) IN
           MScale(RDiv(1, Len(h)), FoldLeft(LAMBDA A, x : MAdd(A, Outer(VSub(x, m), VSub(x, m))), MZero(dim, dim), h))
Warm == {"EmpiricalCovariance", "EwaCovariance", "AdaptiveEwaCovariance", "LedoitWolfCovariance", "OASCovariance",
         "ShrunkCovariance", "BlockCovariance", "SchurCovariance", "SchurConditionalCovariance",
         "SchurLedoitWolfCovariance", "HuberCovariance", "GeodesicEwaCovariance"}
Plain == Started /\ cls \in Warm /\ (cls = "EmpiricalCovariance" \/ Len(hist) <= BurnN(set[1].r))
            => NearV(e.mean, HMean(hist), "1e-30") /\ NearM(e.cov, HCov(hist), "1e-30")

B == BurnN(set[1].r)
ClosedMean == LET n == Len(hist)
                  head == HMean(SubSeq(hist, 1, B))
                  tail == FoldLeft(LAMBDA a, j : VAdd(a, VScale(RMul(set[1].r, RPow(RSub(1, set[1].r), n - j)), hist[j])),
                                   VZero(dim), Rng(B + 1, n))
              IN VAdd(VScale(RPow(RSub(1, set[1].r), n - B), head), tail)
Closed == cls \notin {"", "EmpiricalCovariance", "HuberCovariance", "AdaptiveEwaCovariance", "DCCCovariance", "FactorCovariance"}
             /\ Len(hist) > B => NearV(e.mean, ClosedMean, "1e-30")

In01(x) == RLeq(0, x) /\ RLeq(x, 1)
Structure == Started /\ e.ok =>
   CASE cls = "LedoitWolfCovariance" -> /\ In01(LWIntensity(set[1], e)) /\ NearR(MTrace(Cov), MTrace(e.cov), "1e-30")
                                        /\ (Len(hist) <= B => REq(LWIntensity(set[1], e), 0))
     [] cls = "OASCovariance" -> In01(OASIntensity(set[1], e)) /\ NearR(MTrace(Cov), MTrace(e.cov), "1e-30")
     [] cls = "ShrunkCovariance" -> NearR(MTrace(Cov), MTrace(e.cov), "1e-30")
     [] cls \in {"SchurLedoitWolfCovariance", "SchurConditionalCovariance"} -> In01(EGamma(cls, set[1], e))
     [] cls = "DiagonalCovariance" -> \A i, j \in 1..dim : i # j => REq(Cov[i][j], 0)
     [] cls = "BlockCovariance" -> \A i, j \in 1..dim : ~SameBlock(dim, set[1].n_blocks)[i][j] => REq(Cov[i][j], 0)
     [] cls = "TylerCovariance" -> \A i \in 1..dim : REq(Cov[i][i], 0) \/ NearR(Cov[i][i], 1, "1e-30")
     [] cls = "DCCCovariance" -> \A i, j \in 1..dim : RLeq(RSq(Cov[i][j]), RAdd(RMul(Cov[i][i], Cov[j][j]), "1e-20"))
     [] cls = "FactorCovariance" -> \A i \in 1..dim : RLeq(e.aux.var[i], RAdd(Cov[i][i], "1e-30"))
     [] cls = "PartialMomentsCovariance" ->      \* the concordant quadrants are positive semi-definite on their own
           Psd(e.aux[1]) /\ Psd(e.aux[4]) /\ NearM(e.aux[2], MTrans(e.aux[3]), "1e-30")
     [] cls = "AdaptiveEwaCovariance" -> RLt(0, e.aux)
     [] OTHER -> TRUE

\* equal up to the floors the block methods put under their eigenvalues
Slack == "1e-7"
Diag2(c) == c = "DiagonalCovariance" /\ set[2] = "PartialMomentsCovariance"
Collapse == Started /\ e.ok /\ f.ok /\ <<cls, set[1]>> # <<set[2], set[3]>> =>
   /\ NearV(e.mean, f.mean, "1e-30")
   /\ LET A == Cov  C == ECov(set[2], set[3], f) IN
      IF Diag2(cls) THEN NearV(MDiag(A), MDiag(C), "1e-30")
      ELSE IF cls = "SchurConditionalCovariance" THEN TRUE   \* judged only with well-behaved correlations (P15)
      ELSE NearM(A, C, RMul(Slack, RAdd(1, MaxAbs(A))))
=============================================================================
