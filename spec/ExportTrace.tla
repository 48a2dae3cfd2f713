---------------------------- MODULE ExportTrace ----------------------------
(***************************************************************************)
(* A model exported by the training script (TREE) and the problems it was  *)
(* trained on: features and winning estimator of each (TRACE).  Walking    *)
(* every problem down the exported tree and tallying the winners at each   *)
(* leaf must give exactly the exported class counts; counts add up along   *)
(* the tree; the classes are the winners that occur.                       *)
(***************************************************************************)
EXTENDS Recommend
Run == JsonDeserialize(IOEnv.TRACE)     \* [x |-> rows of features in the tree's order, y |-> names]
VARIABLES l, tally, edge
vars == <<l, tally, edge>>
Nodes == 0..(Len(Tree.feature) - 1)
Classes == {Tree.classes[k] : k \in 1..Len(Tree.classes)}
Rec(x) == [k \in {Tree.features[j] : j \in 1..Len(Tree.features)} |->
             x[CHOOSE j \in 1..Len(Tree.features) : Tree.features[j] = k]]
\* thresholds are exported with six decimals: a problem that close to one may fall either way
RECURSIVE NearEdge(_, _)
NearEdge(f, node) ==
   ~IsLeaf(node) /\
      LET x == Standardised(f, At(Tree.feature, node))  th == At(Tree.threshold, node) IN
      \/ RLeq(RAbs(RSub(x, th)), "1e-5")
      \/ NearEdge(f, IF RLeq(x, th) THEN At(Tree.left, node) ELSE At(Tree.right, node))
Init == l = 1 /\ tally = [n \in Nodes |-> [c \in Classes |-> 0]] /\ edge = 0
Fails ==
   UNION {IF ~IsLeaf(n) \/ \A k \in 1..Len(Tree.classes) :
               LET d == At(Tree.value, n)[k] - tally[n][Tree.classes[k]] IN d >= -edge /\ d <= edge
          THEN {} ELSE {"leaf_counts"} : n \in Nodes}
   \cup UNION {IF IsLeaf(n) \/ \A k \in 1..Len(Tree.classes) :
               At(Tree.value, n)[k] = At(Tree.value, At(Tree.left, n))[k] + At(Tree.value, At(Tree.right, n))[k]
          THEN {} ELSE {"node_counts"} : n \in Nodes}
   \cup (IF Classes = {Run.y[k] : k \in 1..Len(Run.y)} THEN {} ELSE {"classes"})
   \cup (IF \A k \in 1..Len(Tree.classes) : At(Tree.value, 0)[k] = Cardinality({i \in 1..Len(Run.y) : Run.y[i] = Tree.classes[k]})
         THEN {} ELSE {"totals"})
Next == \/ /\ l <= Len(Run.x)
           /\ LET f == Rec(Run.x[l])  n == LeafFrom(f, 0) IN
              IF Run.y[l] \notin Classes THEN tally' = tally /\ edge' = edge
              ELSE IF NearEdge(f, 0) THEN tally' = [tally EXCEPT ![n][Run.y[l]] = @ + 1] /\ edge' = edge + 1
              ELSE tally' = [tally EXCEPT ![n][Run.y[l]] = @ + 1] /\ edge' = edge
           /\ l' = l + 1
        \/ /\ l = Len(Run.x) + 1
           /\ IF Fails = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> 1, l |-> l, fails |-> Fails]))
           /\ l' = l + 1 /\ UNCHANGED <<tally, edge>>
Spec == Init /\ [][Next]_vars
=============================================================================
