------------------------------ MODULE EquivMC ------------------------------
(***************************************************************************)
(* The specification itself keeps the promises of Equivariance.tla: all    *)
(* streams over a small alphabet of integer rows, two copies of the state  *)
(* machine, one fed the transformed rows, compared in exact arithmetic.    *)
(***************************************************************************)
EXTENDS Equivariance
CONSTANTS Depth
Alphabet == {<<1, 0>>, <<-2, 1>>, <<3, 2>>}
Prm(c) == CASE c = "EmpiricalCovariance" -> [none |-> 0]
            [] c = "AdaptiveEwaCovariance" -> [r |-> "0.25", max_r |-> "0.5"]
            [] c = "ShrunkCovariance" -> [r |-> "0.25", delta |-> "0.5", target |-> "constant_correlation"]
            [] c \in {"BlockCovariance", "SchurConditionalCovariance", "SchurLedoitWolfCovariance"} -> [r |-> "0.25", n_blocks |-> 2]
            [] c = "SchurCovariance" -> [r |-> "0.25", n_blocks |-> 2, gamma |-> "0.5", interpolation |-> "linear"]
            [] c = "HuberCovariance" -> [r |-> "0.25", c |-> 1]
            [] c = "DCCCovariance" -> [r |-> "0.25", vol_r |-> "0.5"]
            [] c = "FactorCovariance" -> [r |-> "0.25", k |-> 1]
            [] OTHER -> [r |-> "0.25"]
Maps == { [kind |-> "relabel", A |-> <<<<0, 1>>, <<1, 0>>>>, b |-> <<0, 0>>],
          [kind |-> "rescale", A |-> <<<<3, 0>>, <<0, 3>>>>, b |-> <<0, 0>>],
          [kind |-> "shift", A |-> <<<<1, 0>>, <<0, 1>>>>, b |-> <<2, -5>>],
          [kind |-> "affine", A |-> <<<<2, 1>>, <<-1, 1>>>>, b |-> <<1, 4>>] }
VARIABLES cls, map, n, e1, e2, hist
vars == <<cls, map, n, e1, e2, hist>>
View == <<cls, map, hist>>
Init == /\ map \in Maps /\ cls \in Promise(map.kind) /\ n = 0 /\ hist = <<>>
        /\ e1 = EInit(cls, Prm(cls), 2) /\ e2 = EInit(cls, Prm(cls), 2)
Next == \E x \in Alphabet :
   /\ n < Depth
   /\ e1' = EStep(cls, Prm(cls), e1, x)
   /\ e2' = EStep(cls, Prm(cls), e2, Moved(map.A, map.b, x))
   /\ n' = n + 1 /\ hist' = Append(hist, x) /\ UNCHANGED <<cls, map>>
Spec == Init /\ [][Next]_vars
\* exact up to the 50 digits of the arithmetic (floors of 1e-12 and 1e-8 show through where data is degenerate)
Degenerate == \/ ~e1.ok \/ ~e2.ok
              \/ MinEig(MSym(ECov(cls, Prm(cls), e1))) \preceq "1e-5"
Kept == n = 0 \/ Degenerate \/
   /\ NearM(ECov(cls, Prm(cls), e2), MovedCov(cls, map.kind, map.A, ECov(cls, Prm(cls), e1)), "1e-20")
   /\ NearV(EMean(e2), MovedMean(map.A, map.b, EMean(e1)), "1e-30")
=============================================================================
