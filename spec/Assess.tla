------------------------------- MODULE Assess -------------------------------
(***************************************************************************)
(* The assessors: what each score is (higher is better), what it needs,    *)
(* and the laws that follow.                                               *)
(***************************************************************************)
EXTENDS Estimators

Names == <<"LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood", "SteinLoss", "FrobeniusToTruth", "GMVVariance", "VariogramScore">>
NeedsTruth(nm) == nm = "FrobeniusToTruth"
NeedsData(nm) == ~NeedsTruth(nm)
Usable(nm, data, truth) == (data \/ ~NeedsData(nm)) /\ (truth \/ ~NeedsTruth(nm))

VMeanOver(n, f(_)) == RDiv(FoldLeft(LAMBDA acc, k : RAdd(acc, f(k)), R(0), Rng(1, n)), n)
Log2Pi == RLn(RMul(2, RPi))
LogLik(C, X) ==
   LET P == TLCEval(MInv(C))  ld == RLn(MDet(C))  p == Len(C)
   IN RMul("-0.5", RAdd(RAdd(ld, RMul(p, Log2Pi)), VMeanOver(Len(X), LAMBDA k : Quad(X[k], P))))
Cols(X, idx) == [k \in 1..Len(X) |-> [i \in 1..Len(idx) |-> X[k][idx[i]]]]
\* consecutive blocks of the given size (the last one shorter)
Chunks(p, size) == [b \in 1..((p + size - 1) \div size) |-> Rng((b - 1) * size + 1, Min2(b * size, p))]
BlockLogLik(C, X, B) == VSum([b \in 1..Len(B) |-> LogLik(MSel(C, B[b], B[b]), Cols(X, B[b]))])
Coupled(C, prm) ==
   IF prm.interpolation = "geodesic"
   THEN FloorEig(FlooredGeodesic(FloorEig(BlockDiag(C, prm.n_blocks), FloorEps), FloorEig(C, FloorEps), prm.gamma), FloorEps)
   ELSE FloorEig(DampCross(C, SameBlock(Len(C), prm.n_blocks), prm.gamma), FloorEps)
MeanRow(X) == [i \in 1..Len(X[1]) |-> VMeanOver(Len(X), LAMBDA k : X[k][i])]
SecondMoment(X) == MScale(RDiv(1, Len(X)), MMul(MTrans(X), X))
SampleCov(X) == MSub(SecondMoment(X), Outer(MeanRow(X), MeanRow(X)))
Stein(C, S) == LET M == MMul(MInv(C), S) IN RNeg(RSub(RSub(MTrace(M), RLn(RDiv(MDet(S), MDet(C)))), Len(C)))
Frob(A) == RSqrt(MSumSq(A))
Frobenius(C, T) == RNeg(RDiv(Frob(MSub(C, T)), Frob(T)))
MinVar(C) == LET w == MVec(MInv(C), VOnes(Len(C))) IN VScale(RDiv(1, VSum(w)), w)
GMV(C, X) == LET w == TLCEval(MinVar(C)) IN RNeg(VMeanOver(Len(X), LAMBDA k : RSq(VDot(X[k], w))))
Variogram(C, X) ==
   LET p == Len(C)
       D == TLCEval([i \in 1..p |-> [j \in 1..p |->
               RSqrt(RMul(RDiv(2, RPi), RMax(0, RSub(RAdd(C[i][i], C[j][j]), RMul(2, C[i][j])))))]])
   IN RNeg(VMeanOver(Len(X), LAMBDA k : VSum([i \in 1..p |-> VSum([j \in 1..p |->
               RSq(RSub(RAbs(RSub(X[k][i], X[k][j])), D[i][j]))])])))

Score(nm, prm, C, X, T) ==
   CASE nm = "LogLikelihood" -> LogLik(C, X)
     [] nm = "BlockPseudoLikelihood" -> BlockLogLik(C, X, Chunks(Len(C), prm.block_size))
     [] nm = "SchurLikelihood" -> LogLik(Coupled(C, prm), X)
     [] nm = "SteinLoss" -> Stein(C, SampleCov(X))
     [] nm = "FrobeniusToTruth" -> Frobenius(C, T)
     [] nm = "GMVVariance" -> GMV(C, X)
     [] nm = "VariogramScore" -> Variogram(C, X)

\* full-matrix scores do not care which variable is called what
FullMatrix(nm) == nm \notin {"BlockPseudoLikelihood", "SchurLikelihood"}
PermX(X, s) == [k \in 1..Len(X) |-> [i \in 1..Len(s) |-> X[k][s[i]]]]
\* what a score is made of, for judging rounding
Magnitude(nm, C, X) ==
   CASE nm \in {"LogLikelihood", "BlockPseudoLikelihood", "SchurLikelihood"} ->
          RAdd(Len(C), RAdd(RAbs(RLn(MDet(C))), VMeanOver(Len(X), LAMBDA k : RDiv(VDot(X[k], X[k]), RMax(MinEig(MSym(C)), FloorEps)))))
     [] nm = "SteinLoss" -> RAdd(Len(C), RDiv(MTrace(SampleCov(X)), MinEig(MSym(C))))
     [] nm = "VariogramScore" -> RMul(Len(C) * Len(C), RAdd(MaxAbs(C), RSq(MaxAbs(X))))
     [] nm = "GMVVariance" -> RSq(MaxAbs(X))
     [] OTHER -> R(1)
=============================================================================
