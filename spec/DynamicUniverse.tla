-------------------------- MODULE DynamicUniverse --------------------------
(***************************************************************************)
(* The bookkeeping of a changing universe.  A tracked universe is          *)
(*   [set, hist, stale, born]                                              *)
(* set of names, the steps at which it was updated, the updates since the  *)
(* last of those, and the step that created it; its longevity is Len(hist).*)
(* U is the sequence of universes in order of creation.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Life(u) == Len(u.hist)
\* every tracked set the observation covers is updated, the others get staler
Touch(U, X, t) == [i \in 1..Len(U) |->
   IF U[i].set \subseteq X THEN [U[i] EXCEPT !.stale = 0, !.hist = Append(@, t)]
   ELSE [U[i] EXCEPT !.stale = @ + 1]]
DropStale(U, maxS) == SelectSeq(U, LAMBDA u : u.stale <= maxS)
Tracked(U, X) == \E i \in 1..Len(U) : U[i].set = X
Fresh(X, t) == [set |-> X, hist |-> <<t>>, stale |-> 0, born |-> t]
\* positions that may be dropped: the stalest, and among those the shortest lived
Victims(U) == {i \in 1..Len(U) : \A j \in 1..Len(U) :
                  \/ U[i].stale > U[j].stale
                  \/ U[i].stale = U[j].stale /\ Life(U[i]) <= Life(U[j])}
Without(U, i) == SubSeq(U, 1, i - 1) \o SubSeq(U, i + 1, Len(U))

Kept(U, X, t, maxS) == DropStale(Touch(U, X, t), maxS)
\* the set of successors (more than one only if victims tie)
Observe(U, X, t, maxU, maxS) ==
   LET K == Kept(U, X, t, maxS) IN
   IF Tracked(K, X) THEN {K}
   ELSE IF Len(K) + 1 > maxU /\ K # <<>>
        THEN {Append(Without(K, i), Fresh(X, t)) : i \in Victims(K)}
        ELSE {Append(K, Fresh(X, t))}

\* where the entry of names a, b is read from: most updates, then least stale
Sources(U, a, b) ==
   LET C == {i \in 1..Len(U) : {a, b} \subseteq U[i].set}
   IN {i \in C : \A j \in C : \/ Life(U[i]) > Life(U[j])
                              \/ Life(U[i]) = Life(U[j]) /\ U[i].stale <= U[j].stale}
=============================================================================
