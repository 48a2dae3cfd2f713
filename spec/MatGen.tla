------------------------------- MODULE MatGen -------------------------------
(* Every symmetric integer matrix of order P with entries in -K..K (lower triangle chosen). *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS P, K
VARIABLE tri
Init == tri = <<>>
Next == /\ Len(tri) < (P * (P + 1)) \div 2
        /\ \E v \in -K..K : tri' = Append(tri, v)
Spec == Init /\ [][Next]_tri
At(i, j) == LET a == IF i < j THEN j ELSE i  b == IF i < j THEN i ELSE j IN tri[(a * (a - 1)) \div 2 + b]
Emit == Len(tri) < (P * (P + 1)) \div 2 \/ PrintT("@@MAT " \o ToJson([i \in 1..P |-> [j \in 1..P |-> At(i, j)]]))
=============================================================================
