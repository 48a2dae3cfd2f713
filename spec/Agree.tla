------------------------------- MODULE Agree -------------------------------
(***************************************************************************)
(* When two readings of estimators that should be in the same state agree: *)
(* a reading is [n, mean, cov, corr, prec].                                *)
(***************************************************************************)
EXTENDS HPLinAlg
Rel == "1e-8"
SameMat(A, B, tol) == LET big == RMax(MaxAbs(A), MaxAbs(B)) IN NearM(A, B, RAdd(RMul(tol, big), "1e-250"))
SameVec(a, b, tol) == LET big == RMax(VMaxAbs(a), VMaxAbs(b)) IN NearV(a, b, RAdd(RMul(tol, big), "1e-250"))
SquareFinite(A, p) == Len(A) = p /\ (\A i \in 1..p : Len(A[i]) = p) /\ IsFiniteM(A)
WellFormed(o, p) == /\ Len(o.mean) = p /\ IsFiniteV(o.mean)
                    /\ SquareFinite(o.cov, p) /\ SquareFinite(o.corr, p) /\ Len(o.prec) = p
Differ(o, q, p) ==
   (IF o.n # q.n THEN {"n_samples"} ELSE {})
   \cup (IF SameVec(o.mean, q.mean, Rel) THEN {} ELSE {"location"})
   \cup (IF SameMat(o.cov, q.cov, Rel) THEN {} ELSE {"covariance"})
   \cup (IF ~SameMat(o.cov, q.cov, Rel) \/ SameMat(o.corr, q.corr, "1e-6") THEN {} ELSE {"correlation"})
   \cup (IF ~CondAtMost(q.cov, "1e6") \/ RLt(MaxAbs(q.cov), "1e-200") THEN {}   \* no inverse in range
         ELSE IF ~SquareFinite(o.prec, p) \/ ~SquareFinite(q.prec, p) THEN {"precision"}
         ELSE IF SameMat(o.prec, q.prec, "1e-6") THEN {} ELSE {"precision"})
=============================================================================
