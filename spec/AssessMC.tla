------------------------------ MODULE AssessMC ------------------------------
(***************************************************************************)
(* The laws of P29 hold of the definitions in Assess.tla: all pairs of a   *)
(* small positive definite matrix and held-out rows from a small set.      *)
(***************************************************************************)
EXTENDS Assess
CONSTANT NRows
Alphabet == {<<1, 0>>, <<0, 2>>, <<-1, 1>>, <<2, -1>>}
Mats == { <<<<a, b>>, <<b, d>>>> : a \in 1..3, b \in -1..1, d \in 1..3 }
VARIABLES C, X
Init == C \in { M \in Mats : RLt(0, MDet(M)) } /\ X = <<>>
Next == /\ Len(X) < NRows /\ \E x \in Alphabet : X' = Append(X, x)
        /\ C' = C
Spec == Init /\ [][Next]_<<C, X>>
Full == Len(X) >= 2
Tiny(x) == RLeq(RAbs(x), "1e-30")
AtMost(a, b) == RLeq(a, RAdd(b, "1e-30"))
Same(a, b) == Tiny(RSub(a, b))
S2 == SecondMoment(X)
S == SampleCov(X)
Regular(A) == RLt("1e-6", MDet(A))
Swap == <<2, 1>>
Rev(Y) == [k \in 1..Len(Y) |-> Y[Len(Y) + 1 - k]]
LikelihoodPeak == Full /\ Regular(S2) => AtMost(LogLik(C, X), LogLik(S2, X))
SteinPeak == Full /\ Regular(S) =>
   /\ Tiny(Stein(S, S)) /\ AtMost(Stein(C, S), 0)
   /\ (Tiny(Stein(C, S)) => NearM(C, S, "1e-12"))
GmvScale == Full => Same(GMV(C, X), GMV(MScale(7, C), X))
RowOrder == Full => \A nm \in {"LogLikelihood", "SteinLoss", "GMVVariance", "VariogramScore"} :
   (nm = "SteinLoss" => Regular(S)) => Same(Score(nm, [none |-> 0], C, X, C), Score(nm, [none |-> 0], C, Rev(X), C))
Labels == Full => \A nm \in {"LogLikelihood", "SteinLoss", "GMVVariance", "VariogramScore"} :
   (nm = "SteinLoss" => Regular(S)) => Same(Score(nm, [none |-> 0], C, X, C), Score(nm, [none |-> 0], MSel(C, Swap, Swap), PermX(X, Swap), C))
Bridges == Full =>
   /\ Same(BlockLogLik(C, X, Chunks(2, 2)), LogLik(C, X))
   /\ Same(LogLik(Coupled(C, [interpolation |-> "linear", n_blocks |-> 2, gamma |-> 1]), X), LogLik(C, X))
   /\ Same(LogLik(Coupled(C, [interpolation |-> "linear", n_blocks |-> 2, gamma |-> 0]), X), BlockLogLik(C, X, Blocks(2, 2)))
   /\ Same(LogLik(Coupled(C, [interpolation |-> "geodesic", n_blocks |-> 2, gamma |-> 1]), X), LogLik(C, X))
TruthZero == Tiny(Frobenius(C, C)) /\ \A T \in Mats : T # C /\ RLt(0, MDet(T)) => RLt(Frobenius(C, T), 0)
=============================================================================
