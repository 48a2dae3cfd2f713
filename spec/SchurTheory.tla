----------------------------- MODULE SchurTheory -----------------------------
(***************************************************************************)
(* The theory behind the Schur pseudo-likelihood.  A p x p covariance and  *)
(* an ordered partition of 1..p into consecutive blocks (given by their    *)
(* sizes); g in [0,1] damps what each block is told about the earlier ones *)
(*   T  true covariance      C  candidate covariance                       *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC

Hull(n) == FoldLeft(LAMBDA a, i : a + i, 0, n)
BlkOf(sizes) == [k \in 1..Len(sizes) |-> Rng(Hull(SubSeq(sizes, 1, k - 1)) + 1, Hull(SubSeq(sizes, 1, k)))]
Before(sizes, k) == Rng(1, Hull(SubSeq(sizes, 1, k - 1)))
Times(A, B, C) == MMul(MMul(A, B), C)

\* regression of block k on the earlier ones, and the damped conditional covariance
Coef(C, b, w) == MMul(MSel(C, b, w), MInv(MSel(C, w, w)))
DampedVar(C, b, w, g) == IF w = <<>> THEN MSel(C, b, b)
                         ELSE MSym(MSub(MSel(C, b, b), MScale(g, MMul(Coef(C, b, w), MSel(C, w, b)))))
\* the selector of block k minus its damped regression
Selector(C, b, w, g) ==
   LET p == Len(C)
       G == TLCEval(IF w = <<>> THEN <<>> ELSE MScale(g, Coef(C, b, w)))
   IN [i \in 1..Len(b) |-> [j \in 1..p |-> IF j = b[i] THEN R(1) ELSE IF j <= Len(w) THEN RNeg(G[i][j]) ELSE R(0)]]
Op(C, sizes, g) ==
   LET B == BlkOf(sizes)  p == Len(C) IN
   FoldLeft(LAMBDA acc, k :
      LET w == Before(sizes, k)
          S == TLCEval(DampedVar(C, B[k], w, g))
          L == TLCEval(Selector(C, B[k], w, g))
      IN [W |-> TLCEval(MAdd(acc.W, MMul(MTrans(L), MMul(MInv(S), L)))), Ld |-> RAdd(acc.Ld, RLn(MDet(S)))],
      [W |-> MZero(p, p), Ld |-> R(0)], Rng(1, Len(sizes)))
\* the smallest eigenvalue met among the damped conditional covariances
Slack(C, sizes, g) ==
   LET B == BlkOf(sizes) IN
   FoldLeft(LAMBDA a, k : RMin(a, MinEig(DampedVar(C, B[k], Before(sizes, k), g))), MinEig(MSel(C, B[1], B[1])), Rng(1, Len(sizes)))
ExpLL(T, C, sizes, g) == LET o == TLCEval(Op(C, sizes, g)) IN RMul("-0.5", RAdd(o.Ld, MTrace(MMul(o.W, T))))
\* the same by its definition, block by block
ExpLLBlocks(T, C, sizes, g) ==
   LET B == BlkOf(sizes) IN
   FoldLeft(LAMBDA a, k :
      LET w == Before(sizes, k)
          S == TLCEval(DampedVar(C, B[k], w, g))
          L == TLCEval(Selector(C, B[k], w, g))
          M == MMul(L, MMul(T, MTrans(L)))
      IN RSub(a, RMul("0.5", RAdd(RLn(MDet(S)), MTrace(MMul(MInv(S), M))))), R(0), Rng(1, Len(sizes)))
Gap(A, B, T, sizes, g) == RSub(ExpLL(T, A, sizes, g), ExpLL(T, B, sizes, g))
GapVar(A, B, T, sizes, g) == LET M == TLCEval(MMul(MSub(Op(A, sizes, g).W, Op(B, sizes, g).W), T)) IN RMul("0.5", MTrace(MMul(M, M)))
\* divergence of N(0, C) from N(0, T)
Div(C, T) == RMul("0.5", RAdd(RSub(MTrace(MMul(MInv(C), T)), Len(C)), RLn(RDiv(MDet(C), MDet(T)))))

\* the maximiser of the expected score (g > 0)
ClosedForm(T, sizes, g) ==
   LET B == BlkOf(sizes)  p == Len(T) IN
   FoldLeft(LAMBDA C, k :
      LET b == B[k]  w == Before(sizes, k) IN
      IF w = <<>> THEN MPut(C, b, b, MSel(T, b, b))
      ELSE LET Bk == TLCEval(Coef(T, b, w))
               Sk == TLCEval(DampedVar(T, b, w, 1))
               X == TLCEval(MScale(RDiv(1, g), MMul(Bk, MSel(C, w, w))))
           IN TLCEval(MPut(MPut(MPut(C, b, w, X), w, b, MTrans(X)), b, b, MAdd(Sk, MMul(X, MTrans(Bk))))),
      MZero(p, p), Rng(1, Len(sizes)))
\* squared canonical correlations of the first n variables with the rest, largest first
Canon(C, n) ==
   LET p == Len(C)  a == Rng(1, n)  b == Rng(n + 1, p)
       h == TLCEval(SpdISqrt(MSel(C, a, a)))
       v == SymEig(MSym(Times(MMul(h, MSel(C, a, b)), MInv(MSel(C, b, b)), MMul(MSel(C, b, a), h)))).vals
   IN [i \in 1..n |-> v[n + 1 - i]]
\* with two blocks, the maximiser is a covariance exactly for couplings above the threshold
Inside(r, g) == RSub(RMul(RSq(g), RSub(1, r)), RMul(RSub(1, g), r))
Threshold(r) == RDiv(RSub(RSqrt(RAdd(RSq(r), RMul(4, RMul(r, RSub(1, r))))), r), RMul(2, RSub(1, r)))

\* two scalar variables: x1 ~ (0, a), x2 = b x1 + noise of variance s
Truth2(a, b, s) == <<<<a, RMul(a, b)>>, <<RMul(a, b), RAdd(s, RMul(a, RSq(b)))>>>>
Rho2(a, b, s) == LET e == RMul(a, RSq(b)) IN RDiv(e, RAdd(e, s))
\* how far to trust a coupling of squared correlation r estimated from n observations
Trust(n, r) == LET k == RMul(RSub(n, 2), r) IN RDiv(k, RAdd(k, RSub(1, r)))
\* expected squared prediction error when the estimated coefficient is damped by g
Risk(g, a, b, s, n) == RAdd(s, RMul(a, RAdd(RSq(RMul(b, RSub(1, g))), RMul(RSq(g), RDiv(s, RMul(a, RSub(n, 2)))))))

\* two shrinkages of the same sample covariance S towards a multiple of the identity, and the expected
\* difference of their scores; its first-order variance when S is the sample covariance of n draws from N(0, T)
ShrinkTo(S, al) == MMix(al, S, MScale(RDiv(MTrace(S), Len(S)), MEye(Len(S))))
GapOf(S, T, sizes, g, al, be) == Gap(TLCEval(ShrinkTo(S, al)), TLCEval(ShrinkTo(S, be)), T, sizes, g)
\* derivative along the symmetric direction that moves entries (i,j) and (j,i), by a central difference
Along(T, sizes, g, al, be, i, j) ==
   LET h == "1e-14"  p == Len(T)
       E == TLCEval([a \in 1..p |-> [b \in 1..p |-> IF <<a, b>> = <<i, j>> \/ <<a, b>> = <<j, i>> THEN R(h) ELSE R(0)]])
   IN RDiv(RSub(GapOf(MAdd(T, E), T, sizes, g, al, be), GapOf(MSub(T, E), T, sizes, g, al, be)), RMul(2, h))
\* the gradient: each of the two entries carries half of an off-diagonal derivative
GapGrad(T, sizes, g, al, be) ==
   LET D == TLCEval([i \in 1..Len(T) |-> TLCEval([j \in 1..i |-> TLCEval(Along(T, sizes, g, al, be, i, j))])])
   IN [i \in 1..Len(T) |-> [j \in 1..Len(T) |-> IF i = j THEN D[i][i] ELSE IF j < i THEN RMul("0.5", D[i][j]) ELSE RMul("0.5", D[j][i])]]
\* a gradient whose off-diagonal entries carry the whole derivative each (known finding, see known_findings.txt)
Twice(G) == [i \in 1..Len(G) |-> [j \in 1..Len(G) |-> IF i = j THEN G[i][j] ELSE RMul(2, G[i][j])]]
SampleVar(G, T, n) == LET M == TLCEval(MMul(G, T)) IN RMul(RDiv(2, n), MTrace(MMul(M, M)))
=============================================================================
