---------------------------- MODULE RecommendMC ----------------------------
(***************************************************************************)
(* Design checks.  The ranking at every leaf of the tree under every rule  *)
(* outcome orders the whole registry without ties, every node is reached,  *)
(* and the features of every small integer window keep their invariances.  *)
(***************************************************************************)
EXTENDS Recommend
CONSTANT NRows
VARIABLES mode, node, hard, heavy, X
vars == <<mode, node, hard, heavy, X>>
Alphabet == {<<0, 1>>, <<2, -1>>, <<-1, 3>>, <<1, 1>>}
Init == /\ X = <<>>
        /\ \/ mode = "tree" /\ node = 0 /\ hard \in BOOLEAN /\ heavy \in BOOLEAN
           \/ mode = "window" /\ node = 0 /\ hard = FALSE /\ heavy = FALSE
Next == \/ /\ mode = "tree" /\ ~IsLeaf(node)
           /\ node' \in {At(Tree.left, node), At(Tree.right, node)}
           /\ UNCHANGED <<mode, hard, heavy, X>>
        \/ /\ mode = "window" /\ Len(X) < NRows
           /\ \E x \in Alphabet : X' = Append(X, x)
           /\ UNCHANGED <<mode, node, hard, heavy>>
Spec == Init /\ [][Next]_vars
InTree == node \in 0..(Len(Tree.feature) - 1)
TotalOrder == mode = "tree" /\ IsLeaf(node) =>
   LET r == Ranking(node, hard, heavy) IN
   /\ \A i \in 1..Len(r) : \E k \in 1..Len(Registry) : Registry[k] = r[i]
   /\ \A i, j \in 1..Len(r) : i # j => r[i] # r[j]
   /\ \A i \in 1..(Len(r) - 1) :
        LET a == Count(node, r[i])  b == Count(node, r[i + 1]) IN
        RLt(b, a) \/ (REq(a, b) /\ Halves(r[i], hard, heavy) >= Halves(r[i + 1], hard, heavy))
\* the counts of a node are those of its children, and every leaf has seen training problems
CountsAddUp == mode = "tree" =>
   LET v == At(Tree.value, node) IN
   IF IsLeaf(node) THEN \E k \in 1..Len(v) : v[k] > 0
   ELSE LET a == At(Tree.value, At(Tree.left, node))  b == At(Tree.value, At(Tree.right, node)) IN
        \A k \in 1..Len(v) : v[k] = a[k] + b[k]
Close(a, b) == RLeq(RAbs(RSub(a, b)), RMul("1e-25", RAdd(1, RAbs(b))))
SameF(f, g, names) == \A k \in names : Close(f[k], g[k])
Rev(Y) == [k \in 1..Len(Y) |-> Y[Len(Y) + 1 - k]]
Flip(Y) == [k \in 1..Len(Y) |-> <<Y[k][2], Y[k][1]>>]
Shifted(Y) == [k \in 1..Len(Y) |-> <<Y[k][1] + 7, Y[k][2] - 4>>]
Scaled(Y) == [k \in 1..Len(Y) |-> <<3 * Y[k][1], 3 * Y[k][2]>>]
Invariant == mode = "window" /\ Len(X) >= 2 =>
   LET f == Features(X) IN
   /\ SameF(Features(Rev(X)), f, FeatureNames) /\ SameF(Features(Flip(X)), f, FeatureNames)
   /\ SameF(Features(Shifted(X)), f, FeatureNames)
   /\ RLt("1e-9", f.smallest) => SameF(Features(Scaled(X)), f, FeatureNames)
   /\ RLeq(1, f.condition_number) /\ RLeq(R(1), RAdd(f.effective_rank, "1e-20")) /\ RLeq(f.sphericity, "1.000000001")
   /\ RLeq(0, f.mean_abs_offdiag_corr) /\ RLeq(f.mean_abs_offdiag_corr, "1.0000001")
=============================================================================
