------------------------------- MODULE Repair -------------------------------
(***************************************************************************)
(* Contracts of the matrix helpers.  Each is a predicate over the argument *)
(* and the result (both exact doubles), in exact arithmetic.               *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC

Shaped(A, p) == /\ Len(A) = p /\ (\A i \in 1..p : Len(A[i]) = p) /\ IsFiniteM(A)
Exactly(A, B) == \A i, j \in 1..Len(A) : REq(A[i][j], B[i][j])
Symmetric(A) == \A i, j \in 1..Len(A) : REq(A[i][j], A[j][i])
NearlySym(A) == LET big == MaxAbs(A) IN \A i, j \in 1..Len(A) : NearR(A[i][j], A[j][i], RMul("1e-13", big))

\* eigenvalues raised to the floor, eigenvectors kept
FloorFails(a, eps, out) ==
   LET big == RMax(MaxAbs(a), eps) IN
   (IF NearM(out, FloorEig(a, eps), RMul("1e-12", big)) THEN {} ELSE {"floor_value"})
   \cup (IF Symmetric(out) THEN {} ELSE {"floor_not_symmetric"})
   \cup (IF RLeq(RSub(eps, RMul("1e-13", big)), MinEig(MSym(out))) THEN {} ELSE {"floor_below_floor"})

\* negative eigenvalues to zero
PosPartM(A) == FloorEig(A, 0)
NearestFails(a, out, chol) ==
   LET s == MSym(a)  big == MaxAbs(a) IN
   (IF chol THEN {} ELSE {"nearest_not_positive_definite"})
   \cup (IF Symmetric(out) \/ NearlySym(out) THEN {} ELSE {"nearest_not_symmetric"})
   \cup (IF RLeq(RMul("-1e-14", RMul(Len(a), MaxAbs(out))), MinEig(MSym(out))) THEN {} ELSE {"nearest_indefinite"})
   \cup (IF RLt(RMul("1e-10", big), MinEig(s))
         THEN (IF NearM(out, s, RMul("1e-13", big)) THEN {} ELSE {"nearest_moved_a_good_matrix"})
         ELSE IF NearM(out, PosPartM(s), RAdd(RMul("1e-9", big), "1e-300")) THEN {} ELSE {"nearest_not_nearest"})

\* ridge the diagonal, then shrink towards its mean
ShrinkExpected(a, phi, lam) ==
   LET p == Len(a)
       d == [i \in 1..p |-> RMul(phi, a[i][i])]
       mu == VMeanR(d)
   IN [i \in 1..p |-> [j \in 1..p |->
         IF i = j THEN RAdd(RMul(RSub(1, lam), d[i]), RMul(lam, mu)) ELSE RMul(RSub(1, lam), a[i][j])]]
Sign(x) == IF RLt(x, 0) THEN -1 ELSE IF RLt(0, x) THEN 1 ELSE 0
ShrinkFails(a, phi, lam, out) ==
   (IF NearM(out, ShrinkExpected(a, phi, lam), RMul("1e-13", MaxAbs(a))) THEN {} ELSE {"shrink_value"})
   \cup (IF REq(lam, 1) \/ \A i, j \in 1..Len(a) : i = j \/ Sign(out[i][j]) = Sign(a[i][j]) THEN {} ELSE {"shrink_sign"})

\* the inverse of anything invertible (condition by singular values: eigenvalues in modulus, a is symmetric)
ModEig(a) == LET e == SymEig(MSym(a)).vals IN [i \in 1..Len(e) |-> RAbs(e[i])]
VMin(v) == FoldLeft(LAMBDA m, x : RMin(m, x), v[1], v)
Cond(a) == LET m == ModEig(a) IN IF RLeq(VMin(m), RMul("1e-20", VMaxAbs(m))) THEN R("1e20") ELSE RDiv(VMaxAbs(m), VMin(m))
Invertible(a) == RLt(0, MaxAbs(a)) /\ RLeq(Cond(a), "1e9")
InverseFails(a, out) ==
   IF ~Invertible(a) THEN {}
   ELSE LET inv == MInv(a)  k == RMul("1e-12", Cond(a))
        IN IF NearM(out, inv, RMul(RMin(k, "1e-2"), MaxAbs(inv))) THEN {} ELSE {"inverse_value"}

\* correlation of a covariance
CorrFails(a, out) ==
   LET C == CorrOf(a) IN
   IF \A i, j \in 1..Len(a) : NearR(out[i][j], C[i][j], "1e-12") THEN {} ELSE {"correlation_value"}
SymFails(a, out) == IF Symmetric(out) /\ NearM(out, MSym(a), RMul("1e-15", MaxAbs(a))) THEN {} ELSE {"symmetric_part"}

\* the geodesic from a to b (b given), both well conditioned
GeoFails(a, b, g, out) ==
   IF ~CondAtMost(a, "1e5") \/ ~CondAtMost(b, "1e5") \/ RLeq(MinEig(MSym(a)), "1e-6") \/ RLeq(MinEig(MSym(b)), "1e-6") THEN {}
   ELSE LET E == TLCEval(Geodesic(a, b, g))
            tol == RMul("1e-8", RAdd(MaxAbs(E), 0))
        IN (IF NearM(out, E, tol) THEN {} ELSE {"geodesic_value"})
           \cup (IF REq(g, 0) /\ ~NearM(out, a, tol) THEN {"geodesic_start"} ELSE {})
           \cup (IF REq(g, 1) /\ ~NearM(out, b, tol) THEN {"geodesic_end"} ELSE {})
=============================================================================
