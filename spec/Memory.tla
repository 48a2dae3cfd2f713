------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* How many scalars a saved state may hold, whatever the length of the     *)
(* stream.  (Constants are generous: the property is the order of growth   *)
(* in the dimension and the absence of growth in time.)                    *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC
SumSqBlocks(p, nb) == LET B == Blocks(p, nb)
                          F[k \in 0..Len(B)] == IF k = 0 THEN 0 ELSE F[k-1] + Len(B[k]) * Len(B[k])
                      IN F[Len(B)]
Min2(a, b) == IF a < b THEN a ELSE b
Bound(cls, prm, p) ==
   CASE cls = "DiagonalCovariance" -> 8 * p + 24
     [] cls = "FactorCovariance" -> 4 * Min2(prm.k, p) * p + 8 * p + 24
     [] cls = "BlockCovariance" -> 4 * SumSqBlocks(p, prm.n_blocks) + 12 * p + 24
     [] OTHER -> 8 * p * p + 8 * p + 24
=============================================================================
