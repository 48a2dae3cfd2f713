------------------------------ MODULE WebTexMC ------------------------------
(* Every document of at most Most pieces over two keys, read piece by piece. *)
EXTENDS WebTex
CONSTANT Most
VARIABLES doc, i, r
vars == <<doc, i, r>>
Kinds == {[k |-> "begin", s |-> ""], [k |-> "end", s |-> ""], [k |-> "text", s |-> "t"]} \cup [k : {"label", "ref"}, s : {"eq:a", "eq:b"}]
Init == doc \in UNION {[1..n -> Kinds] : n \in 0..Most} /\ i = 1 /\ r = Fresh(doc)
Next == i <= Len(doc) /\ r' = Read(doc, i, r) /\ i' = i + 1 /\ UNCHANGED doc
Spec == Init /\ [][Next]_vars
Done == i > Len(doc)
Opens == {j \in 1..Len(doc) : r.role[j] = "opens"}
Closes == {j \in 1..Len(doc) : r.role[j] = "closes"}
\* equations are closed when all is read, do not overlap, and are numbered 1, 2, ... in order
Balanced == Done => ~r.open /\ Cardinality(Opens) = Cardinality(Closes) /\ r.n = Cardinality(Opens)
Ordered == \A j \in 1..Len(doc) : LET a == Cardinality({x \in Opens : x <= j})  b == Cardinality({x \in Closes : x <= j}) IN a - b \in {0, 1}
\* as LaTeX: an equation's number is one more than the number of equations that ended before it began
Number == Done => \A k \in DOMAIN r.num : LET T == {j \in 1..Len(doc) : r.role[j] = "tag" /\ doc[j].s = k} IN
   r.num[k] = IF T = {} THEN 0 ELSE 1 + Cardinality({x \in Closes : x < (CHOOSE t \in T : \A u \in T : u <= t)})
\* no end is left over inside, no begin left over that an end follows outside
Maximal == Done => \A j \in 1..Len(doc) : doc[j].k = "end" /\ r.role[j] = "plain" =>
   \A x \in 1..(j - 1) : doc[x].k = "begin" => \E y \in Closes : x <= y /\ y < j
Tagged == Done => \A t \in 1..Len(Tags(doc, r)) : Tags(doc, r)[t] \in 1..r.n
=============================================================================
