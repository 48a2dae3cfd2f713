------------------------------ MODULE KeyedGen ------------------------------
(***************************************************************************)
(* Behaviours of a pair of keyed adapters sharing one prototype: learning  *)
(* by any verb, queries of any list of names, copies and pickled copies.   *)
(* A dictionary is [names, i]: its names in order and a number that picks  *)
(* its values.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json

CONSTANTS NNames, Depth, Kind, OneSet      \* Kind: "fixed" | "dynamic"; OneSet: all dictionaries have all names

VARIABLES hist, log, done
vars == <<hist, log, done>>
Objs == 1..2
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}
NameLists == IF OneSet THEN Orders(1..NNames) ELSE UNION {Orders(S) : S \in (SUBSET (1..NNames)) \ {{}}}
AllLists == UNION {Orders(S) : S \in (SUBSET (1..NNames)) \ {{}}}
Set(q) == {q[i] : i \in 1..Len(q)}

Init == hist = [o \in Objs |-> <<>>] /\ log = <<>> /\ done = FALSE
\* names a query may mention
Askable(o) == IF hist[o] = <<>> THEN {}
              ELSE IF Kind = "fixed" THEN Set(hist[o][1].names)
              ELSE UNION {Set(hist[o][i].names) : i \in 1..Len(hist[o])}
D(nm, o) == [names |-> nm, i |-> Len(hist[o]) + 1]

Learn(o) == \E verb \in {"update", "learn_one", "learn_many"}, nm \in NameLists :
               LET d == <<D(nm, o)>> IN
               /\ hist' = [hist EXCEPT ![o] = @ \o d]
               /\ log' = Append(log, [op |-> verb, o |-> o, dicts |-> d])
LearnMany(o) == \E nm, nm2 \in NameLists :
               LET d == <<D(nm, o), [names |-> nm2, i |-> Len(hist[o]) + 2]>> IN
               /\ hist' = [hist EXCEPT ![o] = @ \o d]
               /\ log' = Append(log, [op |-> "learn_many", o |-> o, dicts |-> d])
View(o) == \E ks \in {<<>>} \cup {q \in AllLists : Set(q) \subseteq Askable(o)} :
               /\ log' = Append(log, [op |-> "view", o |-> o, ask |-> ks])
               /\ UNCHANGED hist
Copy(o, q, how) == /\ o # q
                   /\ hist' = [hist EXCEPT ![q] = hist[o]]
                   /\ log' = Append(log, [op |-> "copy", o |-> o, q |-> q, how |-> how])
Step == /\ Len(log) < Depth /\ done' = done
        /\ \E o \in Objs : Learn(o) \/ LearnMany(o) \/ View(o) \/ View(o)
                           \/ (\E q \in Objs : Copy(o, q, "deepcopy"))
\* a last step of its own, so that a simulated behaviour is printed once
Finish == Len(log) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, log>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

\* closing views: both objects, as learnt and in every single and reversed order of the latest names
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Closing(o) == IF hist[o] = <<>> THEN <<[op |-> "view", o |-> o, ask |-> <<>>]>>
   ELSE LET all == SetToSeq(Askable(o)) IN
        << [op |-> "view", o |-> o, ask |-> <<>>], [op |-> "view", o |-> o, ask |-> all],
           [op |-> "view", o |-> o, ask |-> Rev(all)], [op |-> "view", o |-> o, ask |-> <<all[1]>>],
           [op |-> "view", o |-> o, ask |-> IF Len(all) > 1 THEN <<all[Len(all)], all[1]>> ELSE all] >>
Emit == done => PrintT("@@BEH " \o ToJson(log \o Closing(1) \o Closing(2)))
=============================================================================
