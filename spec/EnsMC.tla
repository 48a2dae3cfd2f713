------------------------------- MODULE EnsMC -------------------------------
(***************************************************************************)
(* Matrices built from their parameters: each family accepts its own, is a *)
(* covariance, and no longer accepts it once an entry is changed; the laws *)
(* the rows are judged by agree with the moments of a row over a small     *)
(* symmetric population.                                                   *)
(***************************************************************************)
EXTENDS Ensembles
CONSTANTS MaxP
VARIABLES fam, p, prm, T, hit
vars == <<fam, p, prm, T, hit>>
Rho(f) == CASE f = "equicorr" -> "0.6" [] f = "calm" -> "0.2" [] f = "crisis" -> "0.85" [] OTHER -> "0.7"
Loads == {"0.5", "1", "1.5"}
Specs == {"0.2", "1"}
Build(f, n, q) ==
   CASE f \in {"equicorr", "calm", "crisis"} -> EquiOf(n, Rho(f))
     [] f = "ar1" -> [i \in 1..n |-> [j \in 1..n |-> Power(Rho(f), Abs(i - j))]]
     [] f = "one_factor" -> [i \in 1..n |-> [j \in 1..n |-> RAdd(RMul(q[i][1], q[j][1]), IF i = j THEN R(q[i][2]) ELSE R(0))]]
     [] f = "diag" -> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R(q[i][2]) ELSE R(0)]]
Init == /\ fam \in {"equicorr", "calm", "crisis", "ar1", "one_factor", "diag"} /\ p \in 3..MaxP
        /\ prm \in [1..p -> (IF fam \in {"one_factor"} THEN Loads ELSE {"1"}) \X (IF fam \in {"one_factor", "diag"} THEN Specs ELSE {"1"})]
        /\ T = TLCEval(Build(fam, p, prm)) /\ hit = <<0, 0>>
\* one entry (and its mirror image) goes wrong
Spoil == /\ hit = <<0, 0>>
         /\ \E i \in 1..p : \E j \in i..p :
              /\ hit' = <<i, j>>
              /\ T' = TLCEval([T EXCEPT ![i][j] = RSub(@, "0.3"), ![j][i] = RSub(T[j][i], "0.3")])
         /\ UNCHANGED <<fam, p, prm>>
Spec == Init /\ [][Spoil]_vars
Sound == hit = <<0, 0>> => Truth(fam, T) /\ Symmetric(T) /\ RLt(0, MinEig(T)) /\ Truth("covariance", T)
\* a specific variance lowered by 0.3 may still be one the family allows; three variables determine one factor exactly
Allowed == \/ fam = "one_factor" /\ p = 3
           \/ hit[1] = hit[2] /\ fam \in {"one_factor", "diag"} /\ RLeq("0.5", R(prm[hit[1]][2]))
Sharp == hit # <<0, 0>> => (Truth(fam, T) => Allowed)
\* known values
Known == hit = <<0, 0>> =>
   CASE fam \in {"equicorr", "calm", "crisis"} ->
          NearR(MDet(T), RMul(Power(RSub(1, Rho(fam)), p - 1), RAdd(1, RMul(p - 1, Rho(fam)))), "1e-20")
     [] fam = "ar1" -> NearR(MDet(T), Power(RSub(1, RSq(Rho(fam))), p - 1), "1e-20")
     [] fam = "one_factor" ->
          (LET d == [i \in 1..p |-> prm[i][2]] IN
           NearR(MDet(T), RMul(FoldLeft(LAMBDA a, x : RMul(a, x), R(1), d), RAdd(1, VSum([i \in 1..p |-> RDiv(RSq(prm[i][1]), d[i])]))), "1e-20"))
     [] OTHER -> TRUE
=============================================================================
