------------------------------- MODULE Reading -------------------------------
(***************************************************************************)
(* What every reading must satisfy, whatever the method and the history.   *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC

Shaped(A, p) == /\ Len(A) = p /\ (\A i \in 1..p : Len(A[i]) = p) /\ IsFiniteM(A)
Symmetric(A) == \A i, j \in 1..Len(A) : REq(A[i][j], A[j][i])
\* positive semi-definite up to rounding
PSD(A) == LET big == MaxAbs(A) IN
          REq(big, 0) \/ RLeq(RNeg(RMul("1e-9", big)), MinEig(A))
\* variances too close to the bottom of the float range are not resolved
Resolved(A, i) == RLt("1e-280", A[i][i])

ValidFails(o, p) ==
   IF ~Shaped(o.cov, p) THEN {"covariance_shape_or_nonfinite"}
   ELSE (IF Symmetric(o.cov) THEN {} ELSE {"covariance_not_symmetric"})
        \cup (IF \A i \in 1..p : RLeq(0, o.cov[i][i]) THEN {} ELSE {"negative_variance"})
        \cup (IF PSD(o.cov) THEN {} ELSE {"covariance_indefinite"})
        \cup (IF "mean" \notin DOMAIN o \/ (Len(o.mean) = p /\ IsFiniteV(o.mean)) THEN {} ELSE {"location_shape_or_nonfinite"})
        \cup (IF ~Shaped(o.corr, p) THEN {"correlation_shape_or_nonfinite"}
              ELSE LET C == TLCEval(CorrOf(o.cov))
                       ok == {i \in 1..p : Resolved(o.cov, i)}
                   IN (IF \A i \in ok : NearR(o.corr[i][i], 1, "1e-9") THEN {} ELSE {"correlation_diagonal"})
                      \cup (IF \A i, j \in 1..p : RLeq(RAbs(o.corr[i][j]), "1.000000001") THEN {} ELSE {"correlation_range"})
                      \cup (IF \A i, j \in ok : NearR(o.corr[i][j], C[i][j], "1e-9") THEN {} ELSE {"correlation_is_not_the_rescaled_covariance"})
                      \cup (IF \A i, j \in 1..p : REq(o.corr[i][j], o.corr[j][i]) \/ NearR(o.corr[i][j], o.corr[j][i], "1e-12")
                            THEN {} ELSE {"correlation_not_symmetric"}))

(* precision, distance and score against the reported covariance and location *)
WellConditioned(A) == RLt("1e-200", MaxAbs(A)) /\ CondAtMost(A, "1e6")
Maha(o, P, x) == Quad(VSub(x, o.mean), P)
LogDensity(logdet, p, m) ==
   RMul("-0.5", RAdd(RAdd(logdet, m), RMul(p, RLn(RMul(2, RPi)))))
CloseR(a, b, scale) == NearR(a, b, RMul("1e-7", RAdd(RAbs(b), scale)))
CoherentFails(o, p) ==
   IF ~Shaped(o.cov, p) \/ Len(o.mean) # p \/ ~IsFiniteV(o.mean) THEN {"reading_malformed"}
   ELSE IF ~WellConditioned(o.cov) THEN {}
   ELSE LET P  == TLCEval(MInv(o.cov))
            ld == RLn(MDet(o.cov))
            prec(Q) == /\ Shaped(Q, p)
                       /\ NearM(Q, P, RMul("1e-6", MaxAbs(P)))
            ms == TLCEval([k \in 1..Len(o.probe) |-> Maha(o, P, o.probe[k])])
            lds == [k \in 1..Len(o.probe) |-> LogDensity(ld, p, ms[k])]
            \* the size of what is added up in a score, hence of its rounding
            scale(k) == RAdd(RAdd(RAbs(ld), ms[k]), p)
            all == FoldLeft(LAMBDA a, k : RAdd(a, scale(k)), R(0), Rng(1, Len(o.probe)))
        IN (IF prec(o.prec) THEN {} ELSE {"precision"})
           \cup (IF prec(o.getprec) THEN {} ELSE {"get_precision"})
           \cup (IF Len(o.maha) = Len(o.probe) /\ IsFiniteV(o.maha)
                    /\ \A k \in 1..Len(ms) : CloseR(o.maha[k], ms[k], RMul("1e-3", p)) THEN {} ELSE {"mahalanobis_batch"})
           \cup (IF Len(o.maha1) = 1 /\ IsFiniteV(o.maha1) /\ CloseR(o.maha1[1], ms[1], RMul("1e-3", p)) THEN {} ELSE {"mahalanobis_row"})
           \cup (IF RIsFinite(o.score) /\ CloseR(o.score, RDiv(VSum(lds), Len(lds)), all) THEN {} ELSE {"score_batch"})
           \cup (IF RIsFinite(o.score1) /\ CloseR(o.score1, lds[1], scale(1)) THEN {} ELSE {"score_row"})
=============================================================================
