----------------------------- MODULE RollingMC -----------------------------
(***************************************************************************)
(* Design checks of the schedule, for all small sizes: every window fits,  *)
(* training rows end where test rows begin, no later window was left out,  *)
(* and rows after the last window belong to none.                          *)
(***************************************************************************)
EXTENDS Rolling
CONSTANT N
VARIABLES T, train, test, step, t, walked
vars == <<T, train, test, step, t, walked>>
Init == /\ T \in 0..N /\ train \in 1..4 /\ test \in 1..3 /\ step \in 1..4
        /\ t = 0 /\ walked = <<>>
Next == /\ Fits(t, T, train, test)
        /\ walked' = Append(walked, t) /\ t' = NextStart(t, step)
        /\ UNCHANGED <<T, train, test, step>>
Spec == Init /\ [][Next]_vars
X == [k \in 1..T |-> <<k>>]
Inside == \A i \in 1..Len(walked) : LET s == walked[i] IN
   /\ Len(TrainRows(X, s, train)) = train /\ Len(TestRows(X, s, train, test)) = test
   /\ TestRows(X, s, train, test)[1][1] = TrainRows(X, s, train)[train][1] + 1      \* nothing between, nothing shared
   /\ s = (i - 1) * step
Complete == ~Fits(t, T, train, test) =>
   /\ walked = Starts(0, T, train, test, step)
   /\ Len(walked) = IF T < train + test THEN 0 ELSE ((T - train - test) \div step) + 1
=============================================================================
