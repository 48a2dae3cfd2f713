-------------------------------- MODULE Elo --------------------------------
(***************************************************************************)
(* Elo ratings of recorded battles.  Contestants are 1..n, a result        *)
(* <<i, j>> means that i beat j, and `left` counts the results that have   *)
(* not been replayed yet.  A replay takes one of them at a time, in any    *)
(* order, until none is left (or a limit is reached).                      *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC
Start == 1500
\* expected points of the first player, from the rating of the second minus that of the first
Expected(d, f) == LET z == RDiv(d, f) IN
   IF RLt(8, z) THEN R(0) ELSE IF RLt(8, RNeg(z)) THEN R(1)
   ELSE RDiv(1, RAdd(1, RExp(RMul(z, RLn(10)))))
\* what the first player gains, and the second loses
Change(a, b, points, k, f) == RMul(k, RSub(points, Expected(RSub(b, a), f)))

Fresh(n) == [i \in 1..n |-> R(Start)]
Beat(r, i, j, k) == LET c == TLCEval(Change(r[i], r[j], 1, k, 400)) IN
                    [r EXCEPT ![i] = RAdd(@, c), ![j] = RSub(@, c)]
Open(left) == {b \in DOMAIN left : left[b] >= 1}
Take(left, b) == [left EXCEPT ![b] = @ - 1]
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Total(left) == SumOver(left, DOMAIN left)
Games(left, i) == SumOver(left, {b \in DOMAIN left : i \in {b[1], b[2]}})
Wins(left, i) == SumOver(left, {b \in DOMAIN left : b[1] = i})

\* r is a possible rating table after replaying what is left (at most `fuel` results)
SameTable(r, t) == NearV(r, t, "1e-7")
RECURSIVE Reaches(_, _, _, _, _)
Reaches(r, left, fuel, k, target) ==
   IF fuel = 0 \/ Open(left) = {} THEN SameTable(r, target)
   ELSE \E b \in Open(left) : Reaches(TLCEval(Beat(r, b[1], b[2], k)), TLCEval(Take(left, b)), fuel - 1, k, target)
\* and its probability when every result left is as likely as any other to be the next
RECURSIVE Chance(_, _, _, _)
Chance(r, left, k, target) ==
   IF Open(left) = {} THEN IF SameTable(r, target) THEN R(1) ELSE R(0)
   ELSE LET n == Total(left)
            part(b) == RMul(RDiv(left[b], n), Chance(TLCEval(Beat(r, b[1], b[2], k)), TLCEval(Take(left, b)), k, target))
            RECURSIVE Add(_)
            Add(S) == IF S = {} THEN R(0) ELSE LET b == CHOOSE b \in S : TRUE IN RAdd(part(b), Add(S \ {b}))
        IN Add(Open(left))

\* laws of any table reached after playing `done` results
Conserved(r, n) == NearR(VSum(r), n * Start, "1e-6")
WithinReach(r, done, k) == \A i \in 1..Len(r) :
   RLeq(RAbs(RSub(r[i], Start)), RAdd(RMul(k, Games(done, i)), "1e-6"))
Deserved(r, done) == \A i \in 1..Len(r) :
   /\ Wins(done, i) = Games(done, i) => RLeq(Start, RAdd(r[i], "1e-6"))
   /\ Wins(done, i) = 0 => RLeq(r[i], RAdd(Start, "1e-6"))
=============================================================================
