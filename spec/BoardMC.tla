------------------------------ MODULE BoardMC ------------------------------
(***************************************************************************)
(* Design checks over every small table of scores: without ties the ranks  *)
(* of a scenario are 1..n, the best has rank one, average ranks average    *)
(* (n + 1) / 2, a dominating estimator leads.                              *)
(***************************************************************************)
EXTENDS Board
CONSTANTS NEst, NScen
VARIABLE T
Scores == {"none", "-inf", "0", "1", "2", "inf"}
Init == T = <<>>
Next == Len(T) < NScen /\ \E col \in [1..NEst -> Scores] : T' = Append(T, col)
Spec == Init /\ [][Next]_T
Ranks == \A s \in 1..Len(T) : LET c == T[s] IN
   /\ \A e \in 1..NEst : 1 <= RankLo(c, e) /\ RankLo(c, e) <= RankHi(c, e) /\ RankHi(c, e) <= NEst
   /\ \A e \in 1..NEst : (RankLo(c, e) = 1) <=> (e \in Best(c))
   /\ \A e \in 1..NEst : c[e] = "none" => RankHi(c, e) = NEst
   /\ (\A e, f \in 1..NEst : e # f => Above(c[e], c[f]) \/ Above(c[f], c[e])) =>
         {RankLo(c, e) : e \in 1..NEst} = 1..NEst /\ \A e \in 1..NEst : RankLo(c, e) = RankHi(c, e)
Averages == Len(T) > 0 =>
   /\ RLeq(VSum([e \in 1..NEst |-> AvgLo(T, e)]), RDiv(NEst * (NEst + 1), 2))
   /\ RLeq(RDiv(NEst * (NEst + 1), 2), VSum([e \in 1..NEst |-> AvgHi(T, e)]))
   /\ \A e \in 1..NEst : (\A s \in 1..Len(T) : \A f \in 1..NEst : f # e => Above(T[s][e], T[s][f]))
         => REq(1, AvgHi(T, e)) /\ \A f \in 1..NEst : f # e => RLt(1, AvgLo(T, f))
=============================================================================
