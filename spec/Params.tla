------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Parameters of estimator objects.  The parameters of a class are spread  *)
(* over two slots; a slot holds the number of the value (0, 1, 2) its      *)
(* parameters currently have.  An object is its parameters and the rows it *)
(* has been fed since its last reset; `clean` says that its parameters     *)
(* have been the same ones all along, in which case everything readable is *)
(* that of an object constructed with them and fed the same rows.  Setting *)
(* parameters and fitting is constructing with them and fitting; learning  *)
(* leaves parameters alone; a clone has the parameters and no rows.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Slots == {1, 2}
Vals == 0..2
Assignments == [Slots -> Vals]
New(p) == [prm |-> p, hist |-> <<>>, clean |-> TRUE]
SetTo(s, p) == [s EXCEPT !.prm = p, !.clean = @ /\ (s.hist = <<>> \/ p = s.prm)]
Learn(s, ids) == [s EXCEPT !.hist = @ \o ids]
Fit(s, ids) == [prm |-> s.prm, hist |-> ids, clean |-> TRUE]
Clone(s) == New(s.prm)
=============================================================================
