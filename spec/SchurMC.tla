------------------------------ MODULE SchurMC ------------------------------
(***************************************************************************)
(* The identities of the Schur theory, for every small positive definite   *)
(* integer matrix, ordered partition and coupling.                         *)
(***************************************************************************)
EXTENDS SchurTheory
CONSTANTS Dim3, Diags, OffMax
Offs == (0 - OffMax)..OffMax
Gs == {"0.25", "0.5", "0.8", "1"}
Mats3 == { <<<<a, x, y>>, <<x, b, z>>, <<y, z, c>>>> : a \in Diags, b \in Diags, c \in Diags, x \in Offs, y \in Offs, z \in Offs }
Mats2 == { <<<<a, x>>, <<x, b>>>> : a \in 1..4, b \in 1..4, x \in -3..3 }
PD(M) == RLt(0, M[1][1]) /\ RLt(0, MDet(MSel(M, <<1, 2>>, <<1, 2>>))) /\ RLt(0, MDet(M))
Parts == IF Dim3 THEN {<<3>>, <<1, 2>>, <<2, 1>>, <<1, 1, 1>>} ELSE {<<2>>, <<1, 1>>}
VARIABLES mat, part, coup
vars == <<mat, part, coup>>
Init == mat \in {N \in (IF Dim3 THEN Mats3 ELSE Mats2) : PD(N)} /\ part \in Parts /\ coup = "none"
Next == coup = "none" /\ coup' \in Gs /\ UNCHANGED <<mat, part>>
Spec == Init /\ [][Next]_vars
Tiny(x) == RLeq(RAbs(x), "1e-30")
Same(A, B) == NearM(A, B, "1e-30")
BlockPart0(T, sizes, g) == LET B == BlkOf(sizes) IN [i \in 1..Len(T) |-> [j \in 1..Len(T) |-> IF \E k \in 1..Len(B) : i \in {B[k][m] : m \in 1..Len(B[k])} /\ j \in {B[k][m] : m \in 1..Len(B[k])} THEN T[i][j] ELSE 0]]
CF0(T, sizes, g) == ClosedForm(T, sizes, g)
Unit(p, i, j, c) == [a \in 1..p |-> [b \in 1..p |-> IF <<a, b>> \in {<<i, j>>, <<j, i>>} THEN c ELSE 0]]
Others(CF) == {MAdd(CF, Unit(Len(CF), i, j, c)) : i \in 1..Len(CF), j \in 1..Len(CF), c \in {"0.3", "-0.3", "2"}}
Defined(C, sizes, g) ==
   IF \A k \in 2..Len(sizes) : LET w == Before(sizes, k) IN RLt("1e-20", RAbs(MDet(MSel(C, w, w)))) THEN RLt("1e-20", Slack(C, sizes, g)) ELSE FALSE

Endpoints0(T, sizes, g) ==
             /\ LET o == Op(T, sizes, 1) IN Same(o.W, MInv(T)) /\ Tiny(RSub(o.Ld, RLn(MDet(T))))
             /\ LET o == Op(T, sizes, 0) IN Same(o.W, MInv(BlockPart0(T, sizes, g))) /\ Tiny(RSub(o.Ld, RLn(MDet(BlockPart0(T, sizes, g)))))
BlockByBlock0(T, sizes, g) ==
                /\ Tiny(RSub(ExpLL(T, T, sizes, g), ExpLLBlocks(T, T, sizes, g)))
                /\ LET C == MAdd(T, MEye(Len(T))) IN Tiny(RSub(ExpLL(T, C, sizes, g), ExpLLBlocks(T, C, sizes, g)))
Recovers0(T, sizes, g, CF) ==
            /\ \A k \in 2..Len(sizes) : LET b == BlkOf(sizes)[k]  w == Before(sizes, k) IN
                  /\ Same(MScale(g, Coef(CF, b, w)), Coef(T, b, w)) /\ Same(DampedVar(CF, b, w, g), DampedVar(T, b, w, 1))
            /\ (g = "1" => Same(CF, T)) /\ Same(CF, MTrans(CF))
Maximises0(T, sizes, g, CF) == LET best == TLCEval(ExpLL(T, CF, sizes, g)) IN
             \A C \in Others(CF) \cup {MScale(1, T)} : Defined(C, sizes, g) => RLeq(ExpLL(T, C, sizes, g), RAdd(best, "1e-30"))
Cone0(T, sizes, g, CF) == Len(sizes) = 2 =>
   LET r == Canon(T, sizes[1])[1]  d == Inside(r, g) IN
   /\ (RLt("1e-30", d) => RLt(0, MinEig(CF))) /\ (RLt(d, "-1e-30") => RLt(MinEig(CF), 0))
   /\ (RLt("1e-20", r) => Tiny(Inside(r, Threshold(r))) /\ RLt(0, Threshold(r)) /\ RLt(Threshold(r), 1))
Divergence0(T, sizes, g) == LET C == MAdd(T, MEye(Len(T))) IN
   /\ Tiny(RSub(Gap(T, C, T, sizes, 1), Div(C, T))) /\ RLt(0, Div(C, T)) /\ Tiny(Div(T, T))
   /\ Tiny(RAdd(Gap(T, C, T, sizes, g), Gap(C, T, T, sizes, g))) /\ RLeq(0, GapVar(T, C, T, sizes, g))
\* the optimal trust is the minimiser of the risk, lies in [0,1], grows with n and with the correlation
Trusts0(T, sizes, g) == Len(T) = 2 /\ sizes = <<1, 1>> =>
   LET a == T[1][1]  b == RDiv(T[1][2], a)  s == RSub(T[2][2], RMul(a, RSq(b)))  r == Rho2(a, b, s) IN
   /\ Same(Truth2(a, b, s), T)
   /\ \A n \in 3..8 : LET t == Trust(n, r) IN
        /\ RLeq(0, t) /\ RLt(t, 1) /\ RLeq(t, Trust(n + 1, r)) /\ RLeq(t, Trust(n, RDiv(RAdd(r, 1), 2)))
        /\ \A h \in {R(0), R("0.25"), R("0.5"), R("0.75"), R(1), RMul(t, "0.99"), RAdd(t, "0.01")} : RLeq(Risk(t, a, b, s, n), RAdd(Risk(h, a, b, s, n), "1e-30"))
        /\ (REq(r, 0) => REq(t, 0))
Endpoints == \A M \in {mat} : \A z \in {part} : \A h \in {coup} \cap Gs : Endpoints0(M, z, h)
BlockByBlock == \A M \in {mat} : \A z \in {part} : \A h \in {coup} \cap Gs : BlockByBlock0(M, z, h)
Recovers == \A M \in {mat} : \A z \in {part} : \A h \in {coup} \cap Gs : \A F \in {CF0(M, z, h)} : Recovers0(M, z, h, F)
Maximises == \A M \in {mat} : \A z \in {part} : \A h \in {coup} \cap Gs : \A F \in {CF0(M, z, h)} : Maximises0(M, z, h, F)
Cone == \A M \in {mat} : \A z \in {part} : \A h \in {coup} \cap Gs : \A F \in {CF0(M, z, h)} : Cone0(M, z, h, F)
Divergence == \A M \in {mat} : \A z \in {part} : \A h \in {coup} \cap Gs : Divergence0(M, z, h)
Trusts == \A M \in {mat} : \A z \in {part} : \A h \in {coup} \cap Gs : Trusts0(M, z, h)
=============================================================================
