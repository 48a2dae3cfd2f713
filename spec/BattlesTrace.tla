---------------------------- MODULE BattlesTrace ----------------------------
(***************************************************************************)
(* Recorded battles, round by round, against the counts the specification  *)
(* keeps; and recorded backtests, leaderboards, rankings, simulated        *)
(* comparisons and data sources.                                           *)
(***************************************************************************)
EXTENDS Battles, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, counts
vars == <<sc, l, counts>>
View == <<sc, l>>
Init == sc \in 1..Len(Scen) /\ l = 1 /\ counts = None(Scen[sc].n)
Rel(x) == RMul("1e-9", RAdd(1, RAbs(x)))
Same(x, y) == IF RIsFinite(x) THEN NearR(x, y, Rel(y)) ELSE FALSE
SameV(u, v) == IF Len(u) # Len(v) THEN FALSE ELSE \A i \in 1..Len(u) : Same(u[i], v[i])
SameM(A, B) == IF Len(A) # Len(B) THEN FALSE ELSE \A i \in 1..Len(A) : SameV(A[i], B[i])

\* what a manager is worth, from the rows and the portfolios it chose
Worth(genre, xs, ws, burn) ==
   LET v == TLCEval(Scores(xs, ws, burn)) IN
   CASE genre = "var" -> RNeg(PVar(v)) [] genre = "mean" -> VMeanR(v) [] genre = "std" -> RSqrt(PVar(v))
     [] OTHER -> RDiv(VMeanR(v), RSqrt(PVar(v)))

\* ------------------------------------------------------------------ battles
Outs(s, r) ==
   [i \in {r.players[k] : k \in 1..Len(r.players)} |->
      LET k == CHOOSE k \in 1..Len(r.players) : r.players[k] = i IN
      IF s.genre = "scripted" \/ r.outs[k].k # "num" THEN r.outs[k]
      ELSE [k |-> "num", v |-> Worth(s.genre, r.xs, r.outs[k].ws, s.burn)]]
Filed(c, file) == /\ Len(file) = Cardinality({b \in DOMAIN c : c[b] > 0})
                  /\ \A i \in 1..Len(file) : <<file[i][1], file[i][2]>> \in DOMAIN c /\ c[<<file[i][1], file[i][2]>>] > 0
                       /\ Same(file[i][3], c[<<file[i][1], file[i][2]>>])
RoundFails(s, r, before, c) ==      \* before: the data of earlier rounds
   (IF Len(r.players) = AtMost(s.n) /\ Cardinality({r.players[k] : k \in 1..Len(r.players)}) = Len(r.players) THEN {} ELSE {"who_plays"})
   \cup (IF Cardinality({r.data[k] : k \in 1..Len(r.data)}) = 1 THEN {} ELSE {"not_on_the_same_data"})
   \cup (IF \A k \in 1..Len(r.data) : r.data[k] # 0 /\ r.data[k] \notin before THEN {} ELSE {"not_on_fresh_data"})
   \cup (IF r.asked THEN {} ELSE {"asked_with_other_settings"})
   \cup (IF Filed(c, r.file) THEN {} ELSE {"wins_recorded"})
OverallFails(s) ==
   LET T == Len(s.rounds)
       plays(i) == Cardinality({t \in 1..T : \E k \in 1..Len(s.rounds[t].players) : s.rounds[t].players[k] = i})
       p == RDiv(AtMost(s.n), s.n)
       slack == RAdd(2, RMul(6, RSqrt(RMul(T, RMul(p, RSub(1, p)))))) IN
   (IF \A i \in 1..s.n : RLeq(RAbs(RSub(plays(i), RMul(T, p))), slack) THEN {} ELSE {"some_play_more_than_others"})
   \cup (IF s.filed THEN {} ELSE {"results_filed_elsewhere"})
   \cup (IF Filed(counts, s.readback) THEN {} ELSE {"results_read_back"})

\* ------------------------------------------------------------------ calls
BacktestFails(t) ==
   LET n == Len(t.xs)  burn == t.burn IN
   IF Len(t.log) # n THEN {"each_row_shown_once"}
   ELSE (IF \A r \in 1..n : SameV(t.log[r].y, t.xs[r]) THEN {} ELSE {"rows_in_order"})
        \cup (IF \A r \in 1..n : t.log[r].e = Flag(r, burn) THEN {} ELSE {"burn_in_flag"})
        \cup (IF \A r \in 1..n : t.log[r].threaded /\ t.log[r].k = 1 /\ Same(t.log[r].j, t.j) /\ Same(t.log[r].q, t.q) THEN {} ELSE {"manager_called_otherwise"})
        \cup (LET ws == [r \in 1..n |-> t.log[r].w] IN
              IF \A f \in DOMAIN t.got : IF RIsFinite(t.got[f]) THEN
                      \E w \in {TLCEval(IF f = "var" THEN RNeg(Worth("var", t.xs, ws, burn)) ELSE Worth(f, t.xs, ws, burn))} :
                         NearR(t.got[f], w, RMul("1e-7", RAdd(1, RAbs(w)))) ELSE FALSE
              THEN {} ELSE {"statistics_of_the_scores"})
        \cup (IF Same(t.answer, IF t.as = "var" THEN RNeg(t.got.var) ELSE t.got.info) THEN {} ELSE {"what_the_judge_returns"})
BoardFails(t) ==          \* [xs, burn, field, ws : per manager, rows : seq of [who, score, beat]]
   LET w == [i \in 1..Len(t.ws) |-> TLCEval(Worth(t.field, t.xs, t.ws[i], t.burn))]
       beat(i) == LET d == TLCEval(RSub(w[i], w[1])) IN
                  IF RLt(RAbs(d), "0.5e-8") THEN {"0.5"} ELSE IF RLt(RAbs(d), "2e-8") THEN {"0.5", "1", "0"} ELSE IF RLt(0, d) THEN {"1"} ELSE {"0"} IN
   IF Len(t.rows) # Len(t.ws) THEN {"board_rows"}
   ELSE (IF \A i \in 1..Len(w) : t.rows[i].who = i THEN {} ELSE {"board_order"})
        \cup (IF \A i \in 1..Len(w) : IF RIsFinite(t.rows[i].score) THEN NearR(t.rows[i].score, w[i], RMul("1e-7", RAdd(1, RAbs(w[i])))) ELSE FALSE THEN {} ELSE {"board_scores"})
        \cup (IF t.rows[1].beat = "nan" /\ \A i \in 2..Len(w) : t.rows[i].beat \in beat(i) THEN {} ELSE {"board_benchmark"})
RankFails(train, test, t) ==      \* [ws, seen, rows : seq of [who, in, out, rel]]
   IF Len(t.rows) # Len(t.ws) \/ {t.rows[k].who : k \in 1..Len(t.rows)} # 1..Len(t.ws) THEN {"ranking_rows"}
   ELSE (IF \A i \in 1..Len(t.seen) : SameM(t.seen[i], train) THEN {} ELSE {"portfolio_built_on_other_data"})
        \cup (IF \A k \in 1..Len(t.rows) : Same(t.rows[k].in, Quad(t.ws[t.rows[k].who], train)) THEN {} ELSE {"in_sample_variance"})
        \cup (IF \A k \in 1..Len(t.rows) : Same(t.rows[k].out, Quad(t.ws[t.rows[k].who], test)) THEN {} ELSE {"out_of_sample_variance"})
        \cup (IF \A k \in 1..(Len(t.rows) - 1) : RLeq(t.rows[k].out, t.rows[k + 1].out) THEN {} ELSE {"ranking_order"})
        \cup (IF \A k \in 1..Len(t.rows) : t.rows[k].rel = "none" \/ Same(t.rows[k].rel, RDiv(t.rows[k].out, t.rows[1].out)) THEN {} ELSE {"ranking_relative"})
Cut(t) == CASE t.split = "three_quarters" -> (3 * Len(t.xs)) \div 4 [] t.split = "half" -> Len(t.xs) \div 2
SplitFails(t) == RankFails(TLCEval(SampleCov(SubSeq(t.xs, Cut(t) + 1, Len(t.xs)))), TLCEval(SampleCov(SubSeq(t.xs, 1, Cut(t)))), t)
RaceFails(t) ==           \* [n, orders : seq of seq of who, points : seq]
   IF \A i \in 1..t.n : Same(t.points[i],
        VSum([k \in 1..Len(t.orders) |-> LET o == t.orders[k] IN
              t.n + 1 - (CHOOSE q \in 1..Len(o) : o[q] = i)]))
   THEN {} ELSE {"race_points"}
\* simulated comparison: the covariance asked for -> the anchor -> the truth -> what the portfolios are shown
ChainFails(t, d) ==
   LET sizes == (IF t.nanchor > 0 THEN <<t.nanchor>> ELSE <<>>) \o (IF t.ntrue > 0 THEN <<t.ntrue>> ELSE <<>>) \o <<t.nobs>>
       K == Len(sizes) IN
   IF Len(d.chain) # K THEN {"chain_of_samples"}
   ELSE IF [k \in 1..K |-> d.chain[k].size] # sizes THEN {"chain_of_samples"}
   ELSE IF ~(SameM(d.chain[1].from, t.cov) /\ \A k \in 2..K : SameM(d.chain[k].from, d.chain[k - 1].to)) THEN {"chain_starts_elsewhere"}
   ELSE IF \A i \in 1..Len(d.seen) : SameM(d.seen[i], d.chain[K].to) THEN {} ELSE {"portfolio_shown_something_else"}
CompareFails(t) ==
   LET bad == UNION {ChainFails(t, t.draws[k]) : k \in 1..Len(t.draws)} IN
   IF bad # {} THEN bad
   ELSE LET mean(i) == VMeanR([k \in 1..Len(t.draws) |-> LET d == t.draws[k] IN Quad(d.ws[i], d.chain[Len(d.chain)].from)]) IN
        (IF \A i \in 1..t.n : Same(t.means[i], mean(i)) THEN {} ELSE {"mean_variance_under_the_truth"})
        \cup (IF ~t.ordered \/ \A k \in 1..(Len(t.order) - 1) : RLeq(t.means[t.order[k]], t.means[t.order[k + 1]]) THEN {} ELSE {"suggestions_in_order"})
SourceFails(t) ==         \* [topic, given, combined, category, rows, err]
   LET p == Merged(Defaults[t.topic], t.given) IN
   IF t.short THEN IF t.rejected THEN {} ELSE {"too_little_data_accepted"}
   ELSE IF t.rejected THEN {"source_rejected"}
   ELSE (IF \A k \in DOMAIN p : k \in DOMAIN t.combined /\ t.combined[k] = p[k] THEN {} ELSE {"parameters_merged"})
        \cup (IF t.category = Category(t.topic, p) THEN {} ELSE {"category"})
        \cup (IF t.passed THEN {} ELSE {"data_replaced"})
Fails(t) ==
   IF "err" \in DOMAIN t THEN {t.kind \o "_raised:" \o t.err}
   ELSE CASE t.kind = "backtest" -> BacktestFails(t)
          [] t.kind = "board" -> BoardFails(t)
          [] t.kind = "rank" -> RankFails(t.train, t.test, t)
          [] t.kind = "split" -> SplitFails(t)
          [] t.kind = "race" -> RaceFails(t)
          [] t.kind = "compare" -> CompareFails(t)
          [] t.kind = "source" -> SourceFails(t)
          [] t.kind = "unknown" -> IF t.rejected THEN {} ELSE {"unknown_topic_accepted"}
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Battle(s) ==
   IF l <= Len(s.rounds)
   THEN \E c \in {TLCEval(Add(counts, Wins(TLCEval(Outs(s, s.rounds[l])), s.atol)))} :
          /\ counts' = c
          /\ Report(TLCEval(RoundFails(s, s.rounds[l], UNION {{s.rounds[k].data[j] : j \in 1..Len(s.rounds[k].data)} : k \in 1..(l - 1)}, c)), sc, l)
   ELSE counts' = counts /\ Report(TLCEval(OverallFails(s)), sc, l)
Next == \E s \in {Scen[sc]} :
   /\ l <= (IF s.kind = "battle" /\ "err" \notin DOMAIN s THEN Len(s.rounds) + 1 ELSE IF s.kind = "battle" THEN 1 ELSE Len(s.calls))
   /\ IF s.kind # "battle" THEN counts' = counts /\ Report(TLCEval(Fails(s.calls[l])), sc, l)
      ELSE IF "err" \in DOMAIN s THEN counts' = counts /\ Report({"battle_raised:" \o s.err}, sc, l)
      ELSE Battle(s)
   /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
