------------------------------- MODULE RowGen -------------------------------
(***************************************************************************)
(* Awkward histories, symbolically: each row is a kind.  The harness turns *)
(* kinds into numbers (and multiplies a whole history by a scale).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kinds, Depth
VARIABLES log, done
vars == <<log, done>>
Init == log = <<>> /\ done = FALSE
Step == Len(log) < Depth /\ done' = FALSE /\ \E k \in Kinds : log' = Append(log, k)
Finish == Len(log) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED log
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@BEH " \o ToJson(log))
=============================================================================
