---------------------------- MODULE Equivariance ----------------------------
(***************************************************************************)
(* Which changes of variables y = A x + b each method promises to respect, *)
(* and what its readings on the transformed stream must then be.           *)
(***************************************************************************)
EXTENDS Estimators

BlockClasses == {"BlockCovariance", "SchurCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance"}
Relabel == Classes \ BlockClasses
Rescale == {"EmpiricalCovariance", "DiagonalCovariance", "EwaCovariance", "AdaptiveEwaCovariance", "LedoitWolfCovariance",
            "OASCovariance", "ShrunkCovariance", "HuberCovariance", "PartialMomentsCovariance",
            "DCCCovariance", "TylerCovariance"}
Shift == Classes \ {"DiagonalCovariance", "PartialMomentsCovariance", "TylerCovariance", "DCCCovariance", "FactorCovariance"}
Affine == {"EmpiricalCovariance", "EwaCovariance", "HuberCovariance", "AdaptiveEwaCovariance"}
Promise(kind) == CASE kind = "relabel" -> Relabel [] kind = "rescale" -> Rescale [] kind = "shift" -> Shift
                   [] kind = "affine" -> Affine

Moved(A, b, x) == VAdd(MVec(A, x), b)
\* the readings on the transformed stream, from those on the original one.  Tyler's estimator
\* reports a correlation matrix: rescaling moves its location only.
MovedCov(cls, kind, A, C) == IF cls = "TylerCovariance" /\ kind = "rescale" THEN C ELSE MMul(MMul(A, C), MTrans(A))
MovedMean(A, b, m) == Moved(A, b, m)
=============================================================================
