------------------------------ MODULE SelfTest ------------------------------
(***************************************************************************)
(* The Java evaluation of HPReal/HPLinAlg against independent TLA+         *)
(* definitions, on pseudo-random inputs.  The Ref... operators repeat the  *)
(* defining TLA+ expressions so that the override and the definition are   *)
(* both evaluated and compared.                                            *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC

VARIABLES k, seed

lcg(s) == (s * 1103 + 12345) % 65536
RECURSIVE seqOf(_, _)
seqOf(s, n) == IF n = 0 THEN <<>> ELSE <<RDiv(lcg(s) - 32768, 7919)>> \o seqOf(lcg(s), n - 1)

RefVSum(v)  == LET RECURSIVE go(_) go(i) == IF i = 0 THEN R(0) ELSE RAdd(go(i-1), v[i]) IN go(Len(v))
RefMMul(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                   RefVSum([l \in 1..Len(B) |-> RMul(A[i][l], B[l][j])])]])
RefDet(A) == LET RECURSIVE det(_)
                 det(B) == IF Len(B) = 1 THEN B[1][1] ELSE
                   LET mi(j) == [i \in 1..(Len(B)-1) |-> [l \in 1..(Len(B)-1) |->
                                   B[i+1][IF l < j THEN l ELSE l+1]]]
                   IN RefVSum([j \in 1..Len(B) |->
                        RMul(IF j % 2 = 1 THEN B[1][j] ELSE RNeg(B[1][j]), det(mi(j)))])
             IN det(A)
Tiny == "1e-38"
EqR(a, b) == RLeq(RAbs(RSub(a, b)), RMul(Tiny, RAdd(1, RAbs(b))))
EqM(A, B) == \A i \in 1..Len(B) : \A j \in 1..Len(B[i]) : EqR(A[i][j], B[i][j])
EqV(a, b) == \A i \in 1..Len(b) : EqR(a[i], b[i])

RatTest(x, y) ==   \* small integers: exact rational identities
   /\ EqR(RMul(RAdd(x, y), RSub(x, y)), RSub(RMul(x, x), RMul(y, y)))
   /\ ~REq(y, 0) => EqR(RMul(RDiv(x, y), y), x)
   /\ RLeq(RMin(x, y), RMax(x, y)) /\ REq(RAdd(RMin(x, y), RMax(x, y)), RAdd(x, y))
   /\ LET q == RSqrt(RAbs(x)) IN EqR(RMul(q, q), RAbs(x))
   /\ EqR(RExp(RAdd(x, y)), RMul(RExp(x), RExp(y)))
   /\ EqR(RLn(RExp(x)), x)
   /\ ~REq(x, 0) => EqR(RExp(RLn(RAbs(x))), RAbs(x))
   /\ LET c == RCeil(x) IN RLeq(x, c) /\ RLt(RSub(c, 1), x)

Mats(n, s) ==
   LET v == TLCEval(seqOf(s, 2 * n * n))
       A == TLCEval([i \in 1..n |-> [j \in 1..n |-> v[(i-1)*n + j]]])
       B == TLCEval([i \in 1..n |-> [j \in 1..n |-> v[n*n + (i-1)*n + j]]])
       S == MSym(A)
       e == SymEig(S)
       P == MAdd(MMul(A, MTrans(A)), MEye(n))
       Q == MAdd(MMul(B, MTrans(B)), MEye(n))
       D == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN e.vals[i] ELSE 0]])
       Tr(M) == TLCEval([j \in 1..Len(M[1]) |-> [i \in 1..Len(M) |-> M[i][j]]])
   IN /\ EqM(MMul(A, B), RefMMul(A, B))
      /\ EqM(MAdd(A, B), TLCEval([i \in 1..n |-> [j \in 1..n |-> RAdd(A[i][j], B[i][j])]]))
      /\ EqM(MSub(A, B), TLCEval([i \in 1..n |-> [j \in 1..n |-> RSub(A[i][j], B[i][j])]]))
      /\ EqM(MMix("0.25", A, B), TLCEval([i \in 1..n |-> [j \in 1..n |->
               RAdd(RMul("0.75", A[i][j]), RMul("0.25", B[i][j]))]]))
      /\ EqM(MTrans(A), Tr(A))
      /\ EqV(MVec(A, SubSeq(v, 1, n)), TLCEval([i \in 1..n |-> RefVSum([j \in 1..n |-> RMul(A[i][j], v[j])])])) = TRUE
      /\ EqM(Outer(A[1], B[1]), TLCEval([i \in 1..n |-> [j \in 1..n |-> RMul(A[1][i], B[1][j])]]))
      /\ EqR(MTrace(A), RefVSum([i \in 1..n |-> A[i][i]]))
      /\ EqR(MSumSq(A), RefVSum([i \in 1..n |-> VDot(A[i], A[i])]))
      /\ EqR(VDot(A[1], B[1]), RefVSum([i \in 1..n |-> RMul(A[1][i], B[1][i])]))
      /\ \A i, j \in 1..n : RLeq(RAbs(A[i][j]), MaxAbs(A))
      /\ \E i, j \in 1..n : REq(RAbs(A[i][j]), MaxAbs(A))
      /\ EqM(RefMMul(P, MInv(P)), MEye(n))
      /\ EqR(MDet(A), RefDet(A))
      /\ EqM(RefMMul(Tr(e.vecs), e.vecs), MEye(n))
      /\ EqM(RefMMul(RefMMul(e.vecs, D), Tr(e.vecs)), S)
      /\ \A i \in 1..(n-1) : RLeq(e.vals[i], e.vals[i+1])
      /\ EqM(EigRebuild(e.vals, e.vecs), S)
      /\ EqM(MSel(A, <<n, 1>>, <<1>>), <<<<A[n][1]>>, <<A[1][1]>>>>)
      /\ EqM(MPut(A, <<n>>, <<1>>, <<<<5>>>>), TLCEval([i \in 1..n |-> [j \in 1..n |->
               IF i = n /\ j = 1 THEN R(5) ELSE A[i][j]]]))
      \* the geodesic: end points, inversion and congruence consistency, midpoint
      /\ EqM(Geodesic(P, Q, 0), P) /\ EqM(Geodesic(P, Q, 1), Q)
      /\ EqM(MInv(Geodesic(P, Q, "0.3")), Geodesic(MInv(P), MInv(Q), "0.3"))
      /\ EqM(Geodesic(P, Q, "0.3"), Geodesic(Q, P, "0.7"))
      /\ EqR(MDet(Geodesic(P, Q, "0.3")),
             RMul(RPow(MDet(P), "0.7"), RPow(MDet(Q), "0.3")))
      /\ RLeq("-1e-40", RSub(MinEig(FloorEig(S, "0.1")), "0.1"))

BlockTest == \A p \in 1..9 : \A nb \in 0..11 :
   LET B == Blocks(p, nb) IN
   /\ FoldLeft(LAMBDA a, b : a \o b, <<>>, B) = Rng(1, p)
   /\ \A i, j \in 1..Len(B) : i < j => Len(B[i]) - Len(B[j]) \in {0, 1}
   /\ Len(B) = (IF nb < 1 THEN 1 ELSE IF nb > p THEN p ELSE nb)

LitTest == /\ REq("0x1.8p+3", 12) /\ REq("-0x1p-2", "-0.25") /\ ~RIsFinite("inf") /\ ~RIsFinite("nan")
           /\ RIsFinite("0x0.0p+0") /\ REq(RAdd("0.1", "0.2"), "0.3")
           /\ EqR(RExp(1), "2.71828182845904523536028747135266249775724709369995")
           /\ EqR(RLn(10), "2.302585092994045684017991454684364207601101488628773")

Init == k = 0 /\ seed = 1 /\ LitTest /\ BlockTest
Next == /\ k < 40 /\ k' = k + 1 /\ seed' = lcg(seed)
Inv == /\ \A x \in {R(-2), R("0.75"), RDiv(seed - 30000, 4000)} : \A y \in {R(3), R("-1e-9"), RDiv(lcg(seed) - 30000, 9000)} : RatTest(x, y)
       /\ Mats(1 + (k % 5), seed)
Spec == Init /\ [][Next]_<<k, seed>>
=============================================================================
