----------------------------- MODULE Recommend -----------------------------
(***************************************************************************)
(* The sample features and the frozen recommender: a decision tree over    *)
(* the standardised features, its leaf's class counts first, the rule      *)
(* based score second, the order of the registry last.                     *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC, Json, IOUtils

Registry == << "EmpiricalCovariance", "DiagonalCovariance", "BlockCovariance", "EwaCovariance",
   "AdaptiveEwaCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance",
   "SchurConditionalCovariance", "SchurLedoitWolfCovariance", "PartialMomentsCovariance", "HuberCovariance",
   "TylerCovariance", "GeodesicEwaCovariance", "DCCCovariance", "FactorCovariance" >>

(* ---- features of a window X (n rows, p columns) ---- *)
VMeanOver(n, f(_)) == RDiv(FoldLeft(LAMBDA acc, k : RAdd(acc, f(k)), R(0), Rng(1, n)), n)
Col(X, j) == [k \in 1..Len(X) |-> X[k][j]]
Centred(X) == LET p == Len(X[1])
                  m == TLCEval([j \in 1..p |-> VMeanR(Col(X, j))])
              IN TLCEval([k \in 1..Len(X) |-> VSub(X[k], m)])
PopCov(X) == LET Y == Centred(X) IN TLCEval(MScale(RDiv(1, Len(X)), MMul(MTrans(Y), Y)))
Floor12(x) == RMax(x, "1e-12")
Features(X) ==
   LET n == Len(X)  p == Len(X[1])
       S == PopCov(X)
       raw == SymEig(MSym(S)).vals
       ev == TLCEval([i \in 1..p |-> Floor12(raw[i])])
       v == TLCEval([i \in 1..p |-> Floor12(S[i][i])])
       Y == Centred(X)
       eff == RDiv(RSq(VSum(ev)), VDot(ev, ev))
       off == VSum([i \in 1..p |-> VSum([j \in 1..p |-> IF i = j THEN R(0)
                     ELSE RAbs(RDiv(S[i][j], RMul(RSqrt(v[i]), RSqrt(v[j]))))])])
   IN [n |-> n, p |-> p, p_over_n |-> RDiv(p, n), effective_rank |-> eff, sphericity |-> RDiv(eff, p),
       condition_number |-> RDiv(ev[p], ev[1]),
       mean_abs_offdiag_corr |-> IF p = 1 THEN R(0) ELSE RDiv(off, p * (p - 1)),
       avg_excess_kurtosis |-> VMeanOver(p, LAMBDA j :
            RSub(RDiv(VMeanOver(n, LAMBDA k : RSq(RSq(Y[k][j]))), RSq(v[j])), 3)),
       smallest |-> raw[1], largest |-> raw[p]]
FeatureNames == {"n", "p", "p_over_n", "effective_rank", "sphericity", "condition_number",
                 "mean_abs_offdiag_corr", "avg_excess_kurtosis"}

(* ---- the frozen tree (spec/tree.json; nodes numbered from 0, -2 marks a leaf) ---- *)
Tree == JsonDeserialize(IOEnv.TREE)
At(v, k) == v[k + 1]
Standardised(f, k) == RDiv(RSub(f[At(Tree.features, k)], At(Tree.mean, k)), At(Tree.std, k))
IsLeaf(node) == At(Tree.feature, node) = -2
RECURSIVE LeafFrom(_, _)
LeafFrom(f, node) ==
   IF IsLeaf(node) THEN node
   ELSE IF RLeq(Standardised(f, At(Tree.feature, node)), At(Tree.threshold, node))
        THEN LeafFrom(f, At(Tree.left, node)) ELSE LeafFrom(f, At(Tree.right, node))
\* a feature on the edge of a threshold may fall either way in floating point
RECURSIVE OnEdge(_, _)
OnEdge(f, node) ==
   ~IsLeaf(node) /\
      LET x == Standardised(f, At(Tree.feature, node))  th == At(Tree.threshold, node) IN
      \/ RLeq(RAbs(RSub(x, th)), RMul("1e-12", RAdd(1, RAbs(x))))
      \/ OnEdge(f, IF RLeq(x, th) THEN At(Tree.left, node) ELSE At(Tree.right, node))
Count(node, nm) ==
   LET ks == {k \in 1..Len(Tree.classes) : Tree.classes[k] = nm}
   IN IF ks = {} THEN R(0) ELSE R(At(Tree.value, node)[CHOOSE k \in ks : TRUE])

(* ---- the rule based score, in halves ---- *)
Halves(nm, hard, heavy) ==
   (IF hard THEN (IF nm \in {"FactorCovariance", "LedoitWolfCovariance", "OASCovariance", "ShrunkCovariance", "SchurCovariance"} THEN 4 ELSE 0)
    ELSE (IF nm \in {"EmpiricalCovariance", "EwaCovariance"} THEN 4 ELSE 0))
   + (IF heavy /\ nm \in {"HuberCovariance", "TylerCovariance"} THEN 3 ELSE 0)
   + (IF nm = "LedoitWolfCovariance" THEN 1 ELSE 0)
Hard(f) == \/ RLt("0.25", f.p_over_n) \/ RLt(f.sphericity, "0.6") \/ RLt(50, f.condition_number)
Heavy(f) == RLt(1, f.avg_excess_kurtosis)

\* i comes before j
Before(node, hard, heavy, i, j) ==
   LET a == Count(node, Registry[i])  b == Count(node, Registry[j])
       s == Halves(Registry[i], hard, heavy)  t == Halves(Registry[j], hard, heavy)
   IN \/ RLt(b, a)
      \/ REq(a, b) /\ (s > t \/ (s = t /\ i < j))
Rank(node, hard, heavy, i) == 1 + Cardinality({j \in 1..Len(Registry) : j # i /\ Before(node, hard, heavy, j, i)})
Ranking(node, hard, heavy) ==
   LET rk == TLCEval([i \in 1..Len(Registry) |-> Rank(node, hard, heavy, i)])
   IN [k \in 1..Len(Registry) |-> Registry[CHOOSE i \in 1..Len(Registry) : rk[i] = k]]
Suggest(f, top) == SubSeq(Ranking(LeafFrom(f, 0), Hard(f), Heavy(f)), 1, IF top > Len(Registry) THEN Len(Registry) ELSE top)
=============================================================================
