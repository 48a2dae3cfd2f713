----------------------------- MODULE Ensembles -----------------------------
(***************************************************************************)
(* The synthetic problems of research/: what a truth of each family looks  *)
(* like, and what rows drawn from it look like.                            *)
(*                                                                         *)
(* A sample is judged by means of functions of a row whose mean and        *)
(* variance under the stated distribution are known exactly; a mean of n   *)
(* independent such values may be off by at most eight standard errors.    *)
(***************************************************************************)
EXTENDS HPLinAlg
\* ---- truths
Square(T, p) == Len(T) = p /\ \A i \in 1..p : Len(T[i]) = p
Symmetric(T) == \A i, j \in 1..Len(T) : NearR(T[i][j], T[j][i], RMul("1e-12", MaxAbs(T)))
Equi(T, rho) == \A i, j \in 1..Len(T) : NearR(T[i][j], IF i = j THEN 1 ELSE rho, "1e-9")
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN R(1) ELSE RMul(x, Power(x, k - 1))
Abs(i) == IF i < 0 THEN 0 - i ELSE i
Decaying(T, rho) == \A i, j \in 1..Len(T) : NearR(T[i][j], Power(rho, Abs(i - j)), "1e-9")
Within(x, lo, hi) == RLeq(RSub(lo, "1e-9"), x) /\ RLeq(x, RAdd(hi, "1e-9"))
Diagonal(T, lo, hi) == \A i, j \in 1..Len(T) : IF i = j THEN Within(T[i][i], lo, hi) ELSE NearR(T[i][j], 0, "1e-12")
\* one factor: the off-diagonal entries are products b_i b_j of the loadings, what is left on the diagonal is the specific variance
Loading(T, i) == LET o == CHOOSE o \in (1..Len(T)) \X (1..Len(T)) : o[1] # i /\ o[2] # i /\ o[1] # o[2]
                 IN RSqrt(RAbs(RDiv(RMul(T[i][o[1]], T[i][o[2]]), T[o[1]][o[2]])))
OneFactor(T, blo, bhi, dlo, dhi) ==
   IF Len(T) < 3 THEN \A i \in 1..Len(T) : RLeq(RAdd(RSq(blo), dlo), RAdd(T[i][i], "1e-9"))
   ELSE IF \E i, j \in 1..Len(T) : RLeq(T[i][j], 0) THEN FALSE
   ELSE LET b == TLCEval([i \in 1..Len(T) |-> Loading(T, i)]) IN
        /\ \A i, j \in 1..Len(T) : i # j => NearR(T[i][j], RMul(b[i], b[j]), "1e-9")
        /\ \A i \in 1..Len(T) : Within(b[i], blo, bhi) /\ Within(RSub(T[i][i], RSq(b[i])), dlo, dhi)
\* k factors: blocks off the diagonal have rank at most k, and the rest is a covariance of at least the smallest specific variance
Factors(T, k, dlo) ==
   /\ RLeq(RSub(dlo, "1e-9"), MinEig(MSym(T)))
   /\ Len(T) < 2 * (k + 1) \/
        LET B == TLCEval(MSel(T, Rng(1, k + 1), Rng(k + 2, 2 * (k + 1)))) IN NearR(MDet(B), 0, RMul("1e-9", Power(RAdd(1, MaxAbs(T)), k + 1)))
Spikes(T, k, lo, hi, bulk) ==
   LET e == TLCEval(SymEig(MSym(T)).vals)  p == Len(T) IN
   \A i \in 1..p : IF i <= p - k THEN NearR(e[i], bulk, "1e-9") ELSE Within(e[i], lo, hi)
Truth(nm, T) ==
   CASE nm = "equicorr" -> Equi(T, "0.6")
     [] nm = "calm" -> Equi(T, "0.2")
     [] nm = "crisis" -> Equi(T, "0.85")
     [] nm = "one_factor" -> OneFactor(T, "0.5", "1.5", "0.2", "1.0")
     [] nm = "three_factor" -> Factors(T, 3, "0.2")
     [] nm = "ar1" -> Decaying(T, "0.7")
     [] nm = "spiked" -> Spikes(T, 3, 8, 15, "0.4")
     [] nm = "diag" -> Diagonal(T, "0.1", 5)
     [] nm = "covariance" -> RLeq(RNeg(RMul("1e-9", MaxAbs(T))), MinEig(MSym(T))) /\ \A i \in 1..Len(T) : RLt(0, T[i][i])
EquiOf(p, rho) == [i \in 1..p |-> [j \in 1..p |-> IF i = j THEN R(1) ELSE R(rho)]]
\* ---- rows
Off(mean, want, var, n) == ~NearR(mean, want, RAdd("1e-9", RMul(8, RSqrt(RDiv(var, n)))))
Df == 5
\* rows of mean zero and covariance T, Gaussian or Student (Df degrees of freedom, scaled to covariance T)
Lower(T) == SpdISqrt(MSym(T))                                \* any square root of the inverse whitens
RowFails(X, T, heavy) ==
   LET n == Len(X)  p == Len(T)
       w == TLCEval(Lower(T))
       Z == TLCEval([k \in 1..n |-> MVec(w, X[k])])          \* covariance one
       q == TLCEval([k \in 1..n |-> VDot(Z[k], Z[k])])
       U == TLCEval([k \in 1..n |-> VScale(RDiv(1, RSqrt(q[k])), Z[k])])   \* uniform on the sphere either way
       dirs == TLCEval([i \in 1..p |-> VMeanR([k \in 1..n |-> U[k][i]])])
       prods == TLCEval([i \in 1..p |-> [j \in 1..p |-> VMeanR([k \in 1..n |-> RMul(U[k][i], U[k][j])])]])
       serial == TLCEval(VMeanR([k \in 1..(n - 1) |-> VDot(U[k], U[k + 1])]))
       a == RDiv(Df, 2)  b == RDiv(p, 2)  ab == RAdd(a, b)
       inv == TLCEval(VMeanR([k \in 1..n |-> RDiv(1, RAdd(1, RDiv(RMul(q[k], RDiv(Df, Df - 2)), Df)))]))   \* Beta(Df/2, p/2)
       pp == p * (p + 2)
   IN (IF \E k \in 1..n : RLeq(q[k], 0) THEN {"empty_row"} ELSE {})
      \cup (IF \E i \in 1..p : Off(dirs[i], 0, RDiv(1, p), n) THEN {"not_centred"} ELSE {})
      \cup (IF p > 1 /\ \E i, j \in 1..p : IF i = j THEN Off(prods[i][i], RDiv(1, p), RDiv(2 * (p - 1), p * pp), n)
                                          ELSE Off(prods[i][j], 0, RDiv(1, pp), n) THEN {"directions"} ELSE {})
      \cup (IF Off(serial, 0, RDiv(1, p), n - 1) THEN {"rows_not_independent"} ELSE {})
      \cup (IF heavy THEN IF Off(inv, RDiv(a, ab), RDiv(RMul(a, b), RMul(RSq(ab), RAdd(ab, 1))), n) THEN {"tails_or_scale"} ELSE {}
            ELSE (IF Off(VMeanR(q), p, 2 * p, n) THEN {"scale"} ELSE {})
                 \cup (IF Off(VMeanR([k \in 1..n |-> RSq(q[k])]), pp, 8 * pp * (p + 3), n) THEN {"tails"} ELSE {}))
\* a share of the rows replaced by independent noise of a given standard deviation (much larger than the rows'), pooled over
\* samples: with eight variables of which seven directions have variance at most one, a row whose quadratic form exceeds 40
\* is noise except with probability 4e-6, and noise of standard deviation eight stays below it with probability at most 0.002
FarRows(X, T) == LET P == TLCEval(MInv(T)) IN SelectSeq(X, LAMBDA x : RLt(40, Quad(x, P)))
MixFails(N, F, p, share, sd) ==         \* F: the far rows among N
   LET got == RDiv(Len(F), N)
       n2 == TLCEval([k \in 1..Len(F) |-> VDot(F[k], F[k])])
       dir == TLCEval([i \in 1..p |-> [j \in 1..p |-> VMeanR([k \in 1..Len(F) |-> RDiv(RMul(F[k][i], F[k][j]), n2[k])])]])
       pp == p * (p + 2)
       slack == RAdd(RMul("0.003", share), RMul(8, RSqrt(RDiv(RMul(share, RSub(1, share)), N))))
   IN IF ~NearR(got, share, slack) THEN {"share_of_contaminated_rows"}
      ELSE (IF NearR(RDiv(VMeanR(n2), RMul(p, RSq(sd))), 1, RAdd("0.003", RMul(8, RSqrt(RDiv(RDiv(2, p), Len(F)))))) THEN {} ELSE {"scale_of_the_noise"})
           \cup (IF \E i, j \in 1..p : ~NearR(dir[i][j], IF i = j THEN RDiv(1, p) ELSE 0,
                       RAdd("0.003", RMul(8, RSqrt(RDiv(IF i = j THEN RDiv(2 * (p - 1), p * pp) ELSE RDiv(1, pp), Len(F)))))) THEN {"noise_not_independent"} ELSE {})
\* ---- candidates
Floor == "1e-3"
PerturbedFails(T, C, eps) ==
   LET e == TLCEval(SymEig(MSym(C)).vals)  p == Len(T)
       d == TLCEval(RSqrt(MSumSq(MSub(C, T))))  want == RMul(eps, RSqrt(MSumSq(T))) IN
   (IF RLeq(RMul("0.999999e-3", e[p]), e[1]) THEN {} ELSE {"candidate_below_the_floor"})
   \cup (IF RLt(e[1], RMul("1.001e-3", e[p])) THEN {}          \* the floor was reached: the distance is not the nominal one
         ELSE IF NearR(d, want, RMul("1e-8", RSqrt(MSumSq(T)))) THEN {} ELSE {"candidate_distance"})
SubspaceFails(Ws, k, n, p) ==
   IF Len(Ws) # n THEN {"number_of_subspaces"}
   ELSE IF \A s \in 1..n : Len(Ws[s]) = k /\ (\A i \in 1..k : Len(Ws[s][i]) = p) /\ NearM(MMul(Ws[s], MTrans(Ws[s])), MEye(k), "1e-9")
        THEN {} ELSE {"not_orthonormal"}
=============================================================================
