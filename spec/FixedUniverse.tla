--------------------------- MODULE FixedUniverse ---------------------------
(***************************************************************************)
(* Alignment of dictionaries with a fixed universe of names.  The t-th     *)
(* dictionary is the sequence of its names (in dictionary order); where a  *)
(* number comes from is recorded symbolically:                             *)
(*   [from |-> "val", t |-> t]  the value the t-th dictionary gave the name *)
(*   [from |-> "zero"]          no value was ever seen / zero imputation    *)
(*   [from |-> "mean"]          the estimator's current location            *)
(* The state is [keys, last, t, fed]: the universe (<<>> until known), the *)
(* step at which each name was last seen (0 never), the number of updates  *)
(* and the vector just passed to the wrapped estimator.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Val(t) == [from |-> "val", t |-> t]
ZeroTok == [from |-> "zero", t |-> 0]
MeanTok == [from |-> "mean", t |-> 0]

FInit(keys) == [keys |-> keys, last |-> [i \in 1..Len(keys) |-> 0], t |-> 0, fed |-> <<>>]

FUpdate(s, names, impute) ==
   LET t    == s.t + 1
       ks   == IF s.keys = <<>> THEN names ELSE s.keys
       last == IF s.keys = <<>> THEN [i \in 1..Len(ks) |-> 0] ELSE s.last
       has(i) == \E j \in 1..Len(names) : names[j] = ks[i]
   IN [keys |-> ks, t |-> t,
       last |-> [i \in 1..Len(ks) |-> IF has(i) THEN t ELSE last[i]],
       fed  |-> [i \in 1..Len(ks) |->
                   IF has(i) THEN Val(t)
                   ELSE IF impute = "mean" THEN MeanTok
                   ELSE IF impute = "ffill" /\ last[i] > 0 THEN Val(last[i])
                   ELSE ZeroTok]]
=============================================================================
