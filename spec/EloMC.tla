------------------------------- MODULE EloMC -------------------------------
(* Every small collection of results in every order of replay, next to its mirror image (all results reversed). *)
EXTENDS Elo
CONSTANTS N, Most, K
VARIABLES left, done, r, m
vars == <<left, done, r, m>>
Pairs == {b \in (1..N) \X (1..N) : b[1] # b[2]}
View == <<left, done, r>>
Init == /\ left \in {f \in [Pairs -> 0..Most] : Total(f) <= Most}
        /\ done = [b \in Pairs |-> 0] /\ r = Fresh(N) /\ m = Fresh(N)
Next == \E b \in Open(left) :
   /\ r' = Beat(r, b[1], b[2], K) /\ m' = Beat(m, b[2], b[1], K)
   /\ left' = Take(left, b) /\ done' = [done EXCEPT ![b] = @ + 1]
   /\ Assert(RLt(r[b[1]], r'[b[1]]) /\ RLt(r'[b[2]], r[b[2]]), "the winner gains, the loser loses")
   /\ Assert(REq(Expected(0, 400), "0.5"), "even")
Spec == Init /\ [][Next]_vars
Zero == NearR(VSum(r), N * Start, "1e-30")
Reach == WithinReach(r, done, K)
Earned == Deserved(r, done)
Mirror == \A i \in 1..N : NearR(RAdd(r[i], m[i]), 2 * Start, "1e-30")
\* nobody overtakes without a result against someone: contestants with no games stay where they started
Idle == \A i \in 1..N : Games(done, i) = 0 => REq(r[i], Start)
=============================================================================
