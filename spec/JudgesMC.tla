------------------------------ MODULE JudgesMC ------------------------------
(***************************************************************************)
(* How the judges relate: projecting onto everything, one block, or full   *)
(* coupling is the full likelihood; scoring along the axes or no coupling  *)
(* is the block (marginal) likelihood.                                     *)
(***************************************************************************)
EXTENDS Judges
CONSTANT NRows
Alphabet == {<<1, 0>>, <<0, 2>>, <<-1, 1>>, <<2, -1>>}
Mats == { <<<<a, b>>, <<b, d>>>> : a \in 1..3, b \in -1..1, d \in 1..3 }
VARIABLES mat, rows
Init == mat \in { M \in Mats : RLt(0, MDet(M)) } /\ rows = <<>>
Next == /\ Len(rows) < NRows /\ \E x \in Alphabet : rows' = Append(rows, x)
        /\ mat' = mat
Spec == Init /\ [][Next]_<<mat, rows>>
Near(a, b) == RLeq(RAbs(RSub(a, b)), "1e-25")
Rot == <<<<"0.6", "0.8">>, <<"-0.8", "0.6">>>>
Half == RMul("0.5", RMul(2, Log2Pi))
Laws(C, X) ==
   /\ Near(Projected(C, X, <<MEye(2)>>), Bare(C, X)) /\ Near(Projected(C, X, <<Rot, MEye(2)>>), Bare(C, X))
   /\ Near(Blockwise(C, X, 2), LogLik(C, X)) /\ Near(Blockwise(C, X, 5), LogLik(C, X))
   /\ Near(Damped(C, X, <<1, 2>>, 1), Bare(C, X)) /\ Near(Damped(C, X, <<1, 1>>, 0), Bare(C, X))
   /\ Near(RSub(Damped(C, X, <<1, 2>>, 0), Half), Blockwise(C, X, 1))
   /\ Near(RMul(2, Judge("random_proj", C, X, [dirs |-> MEye(2)])), Damped(C, X, <<1, 2>>, 0))
   /\ RLeq(Calibration(C, X), 0) /\ RLeq(GMV(C, X), 0)
   /\ Near(RSub(Bare(C, X), Bare(MEye(2), X)), RSub(LogLik(C, X), LogLik(MEye(2), X)))
Bridges == rows # <<>> => \A C \in {mat} : \A X \in {rows} : Laws(C, X)
=============================================================================
