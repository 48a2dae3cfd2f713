------------------------------ MODULE FixedGen ------------------------------
(***************************************************************************)
(* All streams of dictionaries over NNames names, up to Depth updates, for *)
(* every imputation rule and every way of giving the universe.             *)
(***************************************************************************)
EXTENDS FixedUniverse, FiniteSetsExt, Json

CONSTANTS NNames, Depth, Given        \* Given: spellings of the universes the constructor may be given
Universe(g) == CASE g = "none" -> <<>> [] g = "1" -> <<1>> [] g = "12" -> <<1, 2>> [] g = "21" -> <<2, 1>>
                 [] g = "31" -> <<3, 1>> [] g = "23" -> <<2, 3>> [] g = "312" -> <<3, 1, 2>>
                 [] g = "4132" -> <<4, 1, 3, 2>>

Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}
Dicts == UNION {Orders(S) : S \in (SUBSET (1..NNames)) \ {{}}}

VARIABLES s, impute, given, log, done
vars == <<s, impute, given, log, done>>

Init == /\ given \in {Universe(g) : g \in Given} /\ s = FInit(given)
        /\ impute \in {"ffill", "mean", "zero"}
        /\ log = <<>> /\ done = FALSE
Step == /\ Len(log) < Depth /\ done' = done
        /\ \E d \in Dicts \cup (IF s.keys = <<>> THEN {} ELSE {<<>>}) :
             /\ s' = FUpdate(s, d, impute)
             /\ log' = Append(log, d)
        /\ UNCHANGED <<impute, given>>
\* a last step of its own, so that a simulated behaviour is printed once
Finish == Len(log) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<s, impute, given, log>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

Names(d) == {d[j] : j \in 1..Len(d)}
Seen(k) == {t \in 1..Len(log) : k \in Names(log[t])}
\* the universe never changes once known, and is the given one or the first dictionary's names
UniverseFixed == log # <<>> => s.keys = (IF given # <<>> THEN given ELSE log[1])
\* the last seen step is the latest dictionary that really had the name
LastSeen == \A i \in 1..Len(s.keys) : s.last[i] = (IF Seen(s.keys[i]) = {} THEN 0 ELSE Max(Seen(s.keys[i])))
\* every number fed is the name's own value, at the latest step that had it
Aligned == \A i \in 1..Len(s.fed) : LET f == s.fed[i] IN
   /\ f.from = "val" => f.t = Max(Seen(s.keys[i]))
   /\ Len(log) \in Seen(s.keys[i]) => f = Val(Len(log))
   /\ (f.from = "val" /\ f.t < Len(log)) => impute = "ffill"
   /\ f.from = "mean" => impute = "mean"
   /\ (f.from = "zero" /\ impute = "ffill") => Seen(s.keys[i]) = {}
\* the order of the dictionary does not matter once the universe is known
OrderFree == [][(s.keys # <<>> /\ log' # log) =>
                  \A d \in Orders(Names(log'[Len(log')])) : FUpdate(s, d, impute) = s']_vars

Emit == done => PrintT("@@BEH " \o ToJson([given |-> given, impute |-> impute, log |-> log]))
=============================================================================
