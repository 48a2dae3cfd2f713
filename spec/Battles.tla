------------------------------ MODULE Battles ------------------------------
(***************************************************************************)
(* Battles between contestants, and the backtests that judge them.         *)
(*                                                                         *)
(* A battle goes in rounds.  Each round draws fresh data and some of the   *)
(* contestants; each of them is assessed on that data or fails; i beats j  *)
(* iff both were assessed and i's assessment exceeds j's by more than a    *)
(* tolerance.  The wins are counted and the counts saved after each round. *)
(*                                                                         *)
(* A backtest shows a manager one row at a time, first to burn in and then *)
(* to be assessed; a row is scored with a portfolio chosen before the row  *)
(* was shown.                                                              *)
(***************************************************************************)
EXTENDS HPLinAlg, TLC
PerRound == 7
AtMost(n) == IF n < PerRound THEN n ELSE PerRound

\* an outcome is [k |-> kind, v |-> number]; kind: "num", "inf", "-inf", "nan", "failed"
Over(a, b, atol) ==
   IF a.k \in {"nan", "failed"} \/ b.k \in {"nan", "failed"} THEN FALSE
   ELSE IF a.k = "inf" THEN b.k # "inf"
   ELSE IF b.k = "-inf" THEN a.k # "-inf"
   ELSE IF a.k = "-inf" \/ b.k = "inf" THEN FALSE
   ELSE RLt(RAdd(b.v, atol), a.v)
\* who beats whom among the players of one round, given their outcomes (a function on the players)
Wins(out, atol) == {b \in (DOMAIN out) \X (DOMAIN out) : b[1] # b[2] /\ Over(out[b[1]], out[b[2]], atol)}
Add(counts, wins) == [b \in DOMAIN counts |-> counts[b] + (IF b \in wins THEN 1 ELSE 0)]
None(n) == [b \in {p \in (1..n) \X (1..n) : p[1] # p[2]} |-> 0]

\* laws of one round, for a tolerance that is not negative
OneWay(w) == \A b \in w : <<b[2], b[1]>> \notin w
Chains(w) == \A a \in w : \A b \in w : a[2] = b[1] => <<a[1], b[2]>> \in w
Interval(w) == \A a \in w : \A b \in w : <<a[1], b[2]>> \in w \/ <<b[1], a[2]>> \in w

\* backtest: the portfolio against which row r is scored is the one chosen when row r - 2 had been seen
Held(r) == r - 2
Scored(n, burn) == [t \in 1..(n - burn - 1) |-> burn + 1 + t]                    \* the rows that are scored
Scores(xs, ws, burn) == LET rows == Scored(Len(xs), burn) IN
   [t \in 1..Len(rows) |-> VDot(xs[rows[t]], ws[Held(rows[t])])]
Flag(r, burn) == IF r <= burn THEN -1 ELSE 1
PVar(v) == RSub(RDiv(VDot(v, v), Len(v)), RSq(VMeanR(v)))

\* population or sample covariance of rows
RowMean(xs) == [j \in 1..Len(xs[1]) |-> VMeanR([i \in 1..Len(xs) |-> xs[i][j]])]
SampleCov(xs) == LET m == TLCEval(RowMean(xs)) IN
   [a \in 1..Len(m) |-> [b \in 1..Len(m) |->
      RDiv(VSum([i \in 1..Len(xs) |-> RMul(RSub(xs[i][a], m[a]), RSub(xs[i][b], m[b]))]), Len(xs) - 1)]]

\* where data comes from: the given parameters over the defaults of the source
Defaults == [stocks |-> [n_dim |-> 25, n_obs |-> 356, n_burn |-> 300, atol |-> 1, lb |-> -1000, ub |-> 1000, k |-> 1],
             m6 |-> [n_dim |-> 25, n_obs |-> 356, n_burn |-> 300, atol |-> 1, lb |-> -1000, ub |-> 1000, interval |-> "d", etf |-> 1, implied |-> 0],
             tm |-> [n_dim |-> 25, n_obs |-> 356, n_burn |-> 300, atol |-> 1, raw |-> 1, lb |-> -1000, ub |-> 1000]]
Merged(base, given) == [k \in DOMAIN base \cup DOMAIN given |-> IF k \in DOMAIN given THEN given[k] ELSE base[k]]
Describe(topic, p) ==
   CASE topic = "stocks" -> "stocks_" \o ToString(p.k) \o "_days"
     [] topic = "tm" -> IF p.raw # 0 THEN "tm_residuals" ELSE "tm_noncollinear"
     [] topic = "m6" -> (IF p.etf > 0 THEN "m6" ELSE IF p.etf < 0 THEN "m6_etf" ELSE "m6_stocks")
                        \o (IF p.interval = "m" THEN "_monthly" ELSE "_daily")
Category(topic, p) == Describe(topic, p) \o "_p" \o ToString(p.n_dim) \o "_n" \o ToString(p.n_burn)
                      \o (IF topic = "m6" /\ p.implied # 0 THEN "_implied" ELSE "")
=============================================================================
