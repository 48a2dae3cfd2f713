------------------------------- MODULE DynGen -------------------------------
EXTENDS DynamicUniverse, Json

CONSTANTS NNames, Depth, MaxUs, MaxSs

VARIABLES U, maxU, maxS, log, done
vars == <<U, maxU, maxS, log, done>>
Init == /\ U = <<>> /\ log = <<>> /\ done = FALSE
        /\ maxU \in MaxUs /\ maxS \in MaxSs
Step == /\ Len(log) < Depth /\ done' = done
        /\ \E X \in (SUBSET (1..NNames)) \ {{}} :
             /\ U' \in Observe(U, X, Len(log) + 1, maxU, maxS)
             /\ log' = Append(log, X)
        /\ UNCHANGED <<maxU, maxS>>
\* a last step of its own, so that a simulated behaviour is printed once
Finish == Len(log) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<U, maxU, maxS, log>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

Bounded == Len(U) <= maxU
Distinct == \A i, j \in 1..Len(U) : i # j => U[i].set # U[j].set
LatestTracked == log # <<>> => \E i \in 1..Len(U) : U[i].set = log[Len(log)] /\ U[i].stale = 0
NoneTooStale == \A i \in 1..Len(U) : U[i].stale <= maxS
\* a tracked set has seen exactly the covering observations since it was created
HistExact == \A i \in 1..Len(U) :
   /\ U[i].hist = SelectSeq([t \in 1..Len(log) |-> t], LAMBDA t : t >= U[i].born /\ U[i].set \subseteq log[t])
   /\ U[i].stale = Len(log) - U[i].hist[Len(U[i].hist)]
   /\ U[i].set = log[U[i].born]
\* a set is only ever forgotten for staleness or, one per step, to make room for a new set
DropsJustified == [][LET X == log'[Len(log')]
                         gone == {i \in 1..Len(U) : ~Tracked(U', U[i].set)}
                         touched == Touch(U, X, Len(log'))
                         forced == {i \in gone : touched[i].stale <= maxS}
                     IN log' # log =>
                        /\ Cardinality(forced) <= 1
                        /\ forced # {} => Len(U') = maxU /\ ~Tracked(U, X)]_vars
Emit == done => PrintT("@@BEH " \o ToJson([maxU |-> maxU, maxS |-> maxS, log |-> log]))
=============================================================================
