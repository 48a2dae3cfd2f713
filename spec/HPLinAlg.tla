------------------------------ MODULE HPLinAlg ------------------------------
(***************************************************************************)
(* Vectors (tuples of reals) and matrices (tuples of row vectors).  Every  *)
(* operator has its TLA+ definition here; TLC evaluates those listed in    *)
(* java/HPLinAlg.java through that override, and SelfTest.tla compares the *)
(* two.  SymEig and MInv are specified by their defining property and      *)
(* evaluated by a witness (Jacobi, Gauss-Jordan) that SelfTest checks.     *)
(***************************************************************************)
EXTENDS HPReal, Integers, Sequences, FiniteSets, SequencesExt

Dim(v) == Len(v)

VSum(v)      == FoldLeft(LAMBDA acc, x : RAdd(acc, x), 0, v)
VAdd(u, v)   == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v)   == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VMul(u, v)   == [i \in 1..Len(u) |-> RMul(u[i], v[i])]        \* elementwise
VScale(c, v) == [i \in 1..Len(v) |-> RMul(c, v[i])]
VDot(u, v)   == VSum([i \in 1..Len(u) |-> RMul(u[i], v[i])])
VZero(n)     == [i \in 1..n |-> 0]
VOnes(n)     == [i \in 1..n |-> 1]
VMix(c, u, v) == [i \in 1..Len(u) |-> RAdd(RMul(RSub(1, c), u[i]), RMul(c, v[i]))]
Outer(u, v)  == [i \in 1..Len(u) |-> [j \in 1..Len(v) |-> RMul(u[i], v[j])]]

MAdd(A, B)   == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RAdd(A[i][j], B[i][j])]]
MSub(A, B)   == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RSub(A[i][j], B[i][j])]]
MHad(A, B)   == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RMul(A[i][j], B[i][j])]]
MScale(c, A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RMul(c, A[i][j])]]
MMix(c, A, B) == MAdd(MScale(RSub(1, c), A), MScale(c, B))    \* (1-c) A + c B
MTrans(A)    == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
MMul(A, B)   == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                   VSum([k \in 1..Len(B) |-> RMul(A[i][k], B[k][j])])]]
MVec(A, v)   == [i \in 1..Len(A) |-> VDot(A[i], v)]
MDiag(A)     == [i \in 1..Len(A) |-> A[i][i]]
DiagM(v)     == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE 0]]
MZero(n, k)  == [i \in 1..n |-> [j \in 1..k |-> 0]]
MEye(n)      == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MTrace(A)    == VSum(MDiag(A))
MSumSq(A)    == VSum([i \in 1..Len(A) |-> VDot(A[i], A[i])])
MaxAbs(A)    == CHOOSE m \in {RAbs(A[i][j]) : i \in 1..Len(A), j \in 1..Len(A[1])} :
                   \A i \in 1..Len(A), j \in 1..Len(A[1]) : RLeq(RAbs(A[i][j]), m)
MSel(A, rows, cols) == [i \in 1..Len(rows) |-> [j \in 1..Len(cols) |-> A[rows[i]][cols[j]]]]
MPut(A, rows, cols, B) ==
   [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |->
      IF (\E a \in 1..Len(rows) : rows[a] = i) /\ (\E b \in 1..Len(cols) : cols[b] = j)
      THEN B[CHOOSE a \in 1..Len(rows) : rows[a] = i][CHOOSE b \in 1..Len(cols) : cols[b] = j]
      ELSE A[i][j]]]
MInv(A) == CHOOSE B \in [1..Len(A) -> [1..Len(A) -> Real]] : MMul(A, B) = MEye(Len(A))
MDet(A) == IF Len(A) = 1 THEN A[1][1]            \* expansion along the first row
           ELSE LET n == Len(A)
                    minor(j) == [i \in 1..(n-1) |-> [k \in 1..(n-1) |->
                                   A[i+1][IF k < j THEN k ELSE k+1]]]
                    RECURSIVE det(_)
                    det(B) == IF Len(B) = 1 THEN B[1][1] ELSE
                      LET mi(j) == [i \in 1..(Len(B)-1) |-> [k \in 1..(Len(B)-1) |->
                                      B[i+1][IF k < j THEN k ELSE k+1]]]
                      IN VSum([j \in 1..Len(B) |->
                           RMul(IF j % 2 = 1 THEN B[1][j] ELSE RNeg(B[1][j]), det(mi(j)))])
                IN det(A)
\* eigenvalues ascending, eigenvectors in the columns of vecs
IsEig(A, e) == /\ MMul(MTrans(e.vecs), e.vecs) = MEye(Len(A))
               /\ MMul(MMul(e.vecs, DiagM(e.vals)), MTrans(e.vecs)) = A
               /\ \A i \in 1..(Len(A)-1) : RLeq(e.vals[i], e.vals[i+1])
SymEig(A) == CHOOSE e \in [vals : [1..Len(A) -> Real],
                           vecs : [1..Len(A) -> [1..Len(A) -> Real]]] : IsEig(A, e)
EigRebuild(f, V) == MMul(MMul(V, DiagM(f)), MTrans(V))
IsFiniteV(v) == \A i \in 1..Len(v) : RIsFinite(v[i])
IsFiniteM(A) == \A i \in 1..Len(A) : IsFiniteV(A[i])

(* ---- derived notions: plain TLA+, evaluated by TLC itself ---- *)
Rng(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]     \* <<a, a+1, ..., b>>
MapV(f(_), v) == [i \in 1..Len(v) |-> f(v[i])]
MSym(A) == MScale("0.5", MAdd(A, MTrans(A)))
VMeanR(v) == RDiv(VSum(v), Len(v))
Quad(v, A) == VDot(v, MVec(A, v))
MinEig(A) == SymEig(A).vals[1]
MaxEig(A) == SymEig(A).vals[Len(A)]
LogDetSPD(A) == RLn(MDet(A))
\* eigenvalues raised to a floor: the "always SPD" repair
FloorEig(A, eps) == LET e == SymEig(MSym(A)) IN EigRebuild([i \in 1..Len(A) |-> RMax(e.vals[i], eps)], e.vecs)
SpdFun(A, f(_)) == LET e == SymEig(A) IN EigRebuild([i \in 1..Len(A) |-> f(e.vals[i])], e.vecs)
SpdPow(A, g) == SpdFun(A, LAMBDA x : RPow(x, g))
SpdSqrt(A) == SpdFun(A, LAMBDA x : RSqrt(x))
SpdISqrt(A) == SpdFun(A, LAMBDA x : RDiv(1, RSqrt(x)))
\* the affine-invariant geodesic from A to B (both SPD)
Geodesic(A, B, g) ==
   LET h == SpdSqrt(A)  k == SpdISqrt(A)
       mid == SpdPow(MSym(MMul(MMul(k, B), k)), g)
   IN MSym(MMul(MMul(h, mid), h))
\* condition number test that also accepts semi-definite input
CondAtMost(A, c) == LET e == SymEig(MSym(A)).vals IN
   /\ RLt(0, e[1]) /\ RLeq(e[Len(A)], RMul(c, e[1]))
CorrOf(A) ==
   LET d == MDiag(A) IN
   [i \in 1..Len(A) |-> [j \in 1..Len(A) |->
      IF RLeq(d[i], 0) \/ RLeq(d[j], 0) THEN R(0)
      ELSE RDiv(A[i][j], RMul(RSqrt(d[i]), RSqrt(d[j])))]]
\* nb contiguous near-equal blocks of 1..p (the first p % nb blocks one longer)
Blocks(p, nb0) ==
   LET nb == IF nb0 < 1 THEN 1 ELSE IF nb0 > p THEN p ELSE nb0
       q == p \div nb   m == p % nb
       lo(b) == (b - 1) * q + (IF b - 1 < m THEN b - 1 ELSE m) + 1
       hi(b) == b * q + (IF b < m THEN b ELSE m)
   IN [b \in 1..nb |-> Rng(lo(b), hi(b))]
BlockOf(p, nb, i) == LET B == Blocks(p, nb) IN CHOOSE b \in 1..Len(B) : \E k \in 1..Len(B[b]) : B[b][k] = i
SameBlock(p, nb) ==
   LET bid == [i \in 1..p |-> BlockOf(p, nb, i)]
   IN [i \in 1..p |-> [j \in 1..p |-> bid[i] = bid[j]]]

(* ---- tolerant comparison of a recorded matrix with an expected one ---- *)
\* entrywise tolerance rel * sqrt(|E_ii E_jj|) + abs  (E square)
CloseM(O, E, rel, abs) ==
   /\ Len(O) = Len(E)
   /\ \A i \in 1..Len(E) : Len(O[i]) = Len(E[i])
   /\ LET d == [i \in 1..Len(E) |-> RSqrt(RAbs(E[i][i]))] IN
      \A i \in 1..Len(E), j \in 1..Len(E) :
         RLeq(RAbs(RSub(O[i][j], E[i][j])), RAdd(RMul(rel, RMul(d[i], d[j])), abs))
\* uniform tolerance tol on every entry
NearM(O, E, tol) ==
   /\ Len(O) = Len(E)
   /\ \A i \in 1..Len(E) : Len(O[i]) = Len(E[i])
   /\ \A i \in 1..Len(E) : \A j \in 1..Len(E[i]) : RLeq(RAbs(RSub(O[i][j], E[i][j])), tol)
NearV(o, e, tol) == /\ Len(o) = Len(e)
                    /\ \A i \in 1..Len(e) : RLeq(RAbs(RSub(o[i], e[i])), tol)
NearR(o, e, tol) == RLeq(RAbs(RSub(o, e)), tol)
VMaxAbs(v) == IF Len(v) = 0 THEN R(0) ELSE MaxAbs(<<v>>)
=============================================================================
