------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* What a population of estimator objects may do, seen from outside.       *)
(*                                                                         *)
(* The whole state of an estimator is the sequence of complete             *)
(* observations it has absorbed since its last reset (its history), plus,  *)
(* when differencing, the one level still waiting for its successor.       *)
(* Everything a user can read is a function of the parameters and that     *)
(* history, and of nothing else: not of how rows were batched, which       *)
(* container carried them, what was read or saved in between, what other   *)
(* objects did, or what happened to a buffer after the call.               *)
(*                                                                         *)
(* An observation is [a, b]: the row named b itself when a = 0, the        *)
(* difference row b - row a otherwise.  Row names are 100 * width + index. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Width(id) == id \div 100

Fresh(diff) == [diff |-> diff, hist |-> <<>>, pend |-> 0, wid |-> 0]

\* one row arrives
Absorb(s, id) ==
   IF ~s.diff THEN [s EXCEPT !.hist = Append(@, [a |-> 0, b |-> id]), !.wid = Width(id)]
   ELSE IF s.pend = 0 THEN [s EXCEPT !.pend = id, !.wid = Width(id)]
   ELSE [s EXCEPT !.hist = Append(@, [a |-> s.pend, b |-> id]), !.pend = id]

\* partial_fit of a sequence of rows, however it is carried
Feed(s, ids) == FoldLeft(Absorb, s, ids)

\* fit: reset, then the batch
Refit(s, ids) == Feed(Fresh(s.diff), ids)

\* rows acceptable to partial_fit: as wide as what is being tracked
FitsWidth(s, ids) == \A i \in 1..Len(ids) : s.wid = 0 \/ Width(ids[i]) = s.wid

NSamples(s) == Len(s.hist)
Readable(s) == Len(s.hist) > 0
=============================================================================
