------------------------------- MODULE Board -------------------------------
(***************************************************************************)
(* Ranking estimators from a table of scores: T[s][e] is the score of      *)
(* estimator e in scenario s ("none" when missing, which counts as worst). *)
(* Estimators that tie may be ranked either way, so a rank is an interval. *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC
Missing(x) == x = "none"
Above(x, y) == \* x is a strictly better score than y
   IF Missing(x) \/ x = "-inf" THEN FALSE
   ELSE IF Missing(y) \/ y = "-inf" THEN TRUE
   ELSE IF y = "inf" THEN FALSE ELSE IF x = "inf" THEN TRUE ELSE RLt(y, x)
RankLo(col, e) == 1 + Cardinality({f \in 1..Len(col) : Above(col[f], col[e])})
RankHi(col, e) == Len(col) - Cardinality({f \in 1..Len(col) : Above(col[e], col[f])})
Best(col) == {e \in 1..Len(col) : \A f \in 1..Len(col) : ~Above(col[f], col[e])}
AvgLo(T, e) == RDiv(FoldLeft(LAMBDA a, s : a + RankLo(T[s], e), 0, Rng(1, Len(T))), Len(T))
AvgHi(T, e) == RDiv(FoldLeft(LAMBDA a, s : a + RankHi(T[s], e), 0, Rng(1, Len(T))), Len(T))
Finite(x) == ~Missing(x) /\ RIsFinite(x)
\* the scenarios in which an estimator has a finite score, and the mean over those
HasFinite(T, e) == SelectSeq(Rng(1, Len(T)), LAMBDA s : Finite(T[s][e]))
MeanFinite(T, e) ==
   LET ok == HasFinite(T, e)
   IN RDiv(FoldLeft(LAMBDA a, s : RAdd(a, T[s][e]), R(0), ok), Len(ok))
=============================================================================
