------------------------------ MODULE Rolling ------------------------------
(***************************************************************************)
(* Rolling out-of-sample evaluation of minimum-variance portfolios, as a   *)
(* state machine that walks the windows of a return matrix: fit on the     *)
(* training rows, hold the portfolio over the following test rows, advance *)
(* by the step while both parts fit.                                       *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC
\* windows are numbered by the row (from 0) at which they start
Fits(t, T, train, test) == t + train + test <= T
NextStart(t, step) == t + step
RECURSIVE Starts(_, _, _, _, _)
Starts(t, T, train, test, step) ==
   IF Fits(t, T, train, test) THEN <<t>> \o Starts(NextStart(t, step), T, train, test, step) ELSE <<>>
TrainRows(X, t, train) == SubSeq(X, t + 1, t + train)
TestRows(X, t, train, test) == SubSeq(X, t + train + 1, t + train + test)

Ones(p) == [i \in 1..p |-> R(1)]
MinVar(C) == LET u == TLCEval(MVec(MInv(C), Ones(Len(C)))) IN VScale(RDiv(1, VSum(u)), u)
Equal(p) == [i \in 1..p |-> RDiv(1, p)]
Realised(Y, wt) == LET w == TLCEval(wt) IN RDiv(FoldLeft(LAMBDA a, k : RAdd(a, RSq(VDot(Y[k], w))), R(0), Rng(1, Len(Y))), Len(Y))
Annual(total, n) == RSqrt(RDiv(RMul(252, total), n))
=============================================================================
