----------------------------- MODULE BattlesMC -----------------------------
(* Every short history of rounds among N contestants whose outcomes are failures, infinities, nan or one of a few numbers;
   and next to it a backtest of every length and burn-in. *)
EXTENDS Battles
CONSTANTS N, Tops, Rounds, Rows
VARIABLES counts, round, last, burn, shown, choices, held
vars == <<counts, round, last, burn, shown, choices, held>>
Outcomes == {[k |-> "num", v |-> x] : x \in 0..Tops} \cup {[k |-> "failed", v |-> 0], [k |-> "inf", v |-> 0], [k |-> "-inf", v |-> 0], [k |-> "nan", v |-> 0]}
Init == /\ counts = None(N) /\ round = 0 /\ last = [p |-> <<>>, w |-> {}, tol |-> 0]
        /\ burn \in 1..(Rows - 1) /\ shown = 0 /\ choices = <<>> /\ held = <<>>
Battle == /\ round < Rounds /\ shown = 0 /\ burn = 1
          /\ \E P \in SUBSET (1..N) : \E out \in [P -> Outcomes] : \E tol \in 0..1 :
               LET w == Wins(out, tol) IN counts' = Add(counts, w) /\ last' = [p |-> out, w |-> w, tol |-> tol]
          /\ round' = round + 1 /\ UNCHANGED <<burn, shown, choices, held>>
\* the manager's choice is stamped with the last row it has seen; a row is shown to be scored before the manager sees it
Show == /\ round = 0 /\ shown < Rows
        /\ held' = IF shown + 1 \in {Scored(Rows, burn)[t] : t \in 1..Len(Scored(Rows, burn))}
                   THEN Append(held, [row |-> shown + 1, by |-> choices[Held(shown + 1)]]) ELSE held
        /\ choices' = Append(choices, shown + 1)
        /\ shown' = shown + 1 /\ UNCHANGED <<counts, round, last, burn>>
Next == Battle \/ Show
Spec == Init /\ [][Next]_vars
Sane == (OneWay(last.w) /\ Chains(last.w) /\ Interval(last.w))
Working == \A b \in last.w : last.p[b[1]].k \notin {"failed", "nan"} /\ last.p[b[2]].k \notin {"failed", "nan"}
Counted == \A b \in DOMAIN counts : counts[b] >= 0 /\ counts[b] + counts[<<b[2], b[1]>>] <= round
Translation == \A d \in {-3, 5} :
   Wins([i \in DOMAIN last.p |-> [last.p[i] EXCEPT !.v = RAdd(@, d)]], last.tol) = last.w
NoPeek == \A i \in 1..Len(held) : held[i].by < held[i].row
Each == shown = Rows => Len(held) = Rows - burn - 1 /\ \A i \in 1..(Len(held) - 1) : held[i + 1].row = held[i].row + 1 /\ held[i].row > burn
=============================================================================
