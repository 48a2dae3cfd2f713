------------------------------- MODULE Judges -------------------------------
(***************************************************************************)
(* The candidate judges of research/metric_power.py: a judge scores a      *)
(* covariance C on held-out rows X, higher is better (constants dropped    *)
(* from likelihoods), and the power of a judge is how often it prefers the *)
(* candidate of smaller divergence from the truth.                         *)
(***************************************************************************)
EXTENDS Assess
ST == INSTANCE SchurTheory
Bare(C, X) == RAdd(LogLik(C, X), RMul("0.5", RMul(Len(C), Log2Pi)))      \* the constant dropped
AlongDir(C, X, d) ==
   LET v == TLCEval(Quad(d, C)) IN
   VMeanOver(Len(X), LAMBDA k : RMul("-0.5", RAdd(RLn(v), RDiv(RSq(VDot(X[k], d)), v))))
Calibration(C, X) ==
   LET P == TLCEval(MInv(C)) IN RNeg(RAbs(RSub(VMeanOver(Len(X), LAMBDA k : Quad(X[k], P)), Len(C))))
\* each W has orthonormal rows; the likelihood of the projected rows under the projected covariance
Projected(C, X, Ws) ==
   VMeanOver(Len(Ws), LAMBDA s :
      Bare(MSym(MMul(MMul(Ws[s], C), MTrans(Ws[s]))), [k \in 1..Len(X) |-> MVec(Ws[s], X[k])]))
Floored(C) == FloorEig(C, RMul("1e-3", MaxEig(MSym(C))))
Blockwise(C, X, size) ==
   LET B == Chunks(Len(C), size) IN VSum([b \in 1..Len(B) |-> LogLik(Floored(MSel(C, B[b], B[b])), Cols(X, B[b]))])
Damped(C, X, ids, g) ==
   Bare(Floored([i \in 1..Len(C) |-> [j \in 1..Len(C) |-> IF ids[i] = ids[j] THEN C[i][j] ELSE RMul(g, C[i][j])]]), X)
Judge(nm, C, X, o) ==
   CASE nm = "loglik" -> Bare(C, X)
     [] nm = "frobenius" -> RNeg(Frob(MSub(C, SampleCov(X))))
     [] nm = "stein" -> Stein(C, SampleCov(X))
     [] nm = "random_proj" -> VMeanOver(Len(o.dirs), LAMBDA d : AlongDir(C, X, o.dirs[d]))
     [] nm = "min_variance" -> GMV(C, X)
     [] nm = "maha_calib" -> Calibration(C, X)
     [] nm = "projected" -> Projected(C, X, o.subs)
     [] nm = "blockwise" -> Blockwise(C, X, o.size)
     [] nm = "damped" -> Damped(C, X, o.ids, o.g)
\* which of two candidates is the better one: the measure each experiment goes by (smaller is better)
Measure(gold, o, C, T) ==
   CASE gold = "divergence" -> ST!Div(C, T)
     \* the part of the error along the leading eigenvectors of the truth
     [] gold = "bulk" -> LET e == TLCEval(SymEig(MSym(T)))
                             p == Len(T)
                             v(i) == [j \in 1..p |-> e.vecs[j][p + 1 - i]]
                             D == TLCEval(MSub(C, T))
                         IN RSqrt(VSum([i \in 1..o.bulk |-> VSum([j \in 1..o.bulk |-> RSq(VDot(v(i), MVec(D, v(j))))])]))
     \* the mean error of the correlations that are not zero
     [] gold = "within" -> LET S == TLCEval({q \in (1..Len(T)) \X (1..Len(T)) : q[1] # q[2] /\ RLt("1e-9", RAbs(T[q[1]][q[2]]))})
                           IN RDiv(FoldLeft(LAMBDA a, q : RAdd(a, RAbs(RSub(C[q[1]][q[2]], T[q[1]][q[2]]))), R(0), SetToSeq(S)),
                                   IF S = {} THEN 1 ELSE Cardinality(S))
\* what a score is made of, for judging rounding
Mass(C, X) == RAdd(RAdd(Len(C), RAbs(RLn(MDet(C)))), RAdd(MaxAbs(C), VMeanOver(Len(X), LAMBDA k : RDiv(VDot(X[k], X[k]), MinEig(MSym(C))))))
=============================================================================
