----------------------------- MODULE BoardTrace -----------------------------
(***************************************************************************)
(* Recorded outputs of the bake-off (leaderboard, winners, score table)    *)
(* and of the recommender's validation (event traces of its protocol, and  *)
(* its printed summary) judged against Board.                              *)
(***************************************************************************)
EXTENDS Board, Json, IOUtils, SequencesExt
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, run
vars == <<sc, l, run>>
View == <<sc, l>>
Ev(k) == Scen[k].calls
\* the protocol: for each held-out ensemble, first choose the best fixed estimator on other ensembles, then test
Start == [held |-> 1, phase |-> "train", trial |-> 0, open |-> FALSE, scores |-> <<>>, fit |-> 0,
          sums |-> <<>>, rec |-> <<>>, results |-> <<>>]
Init == sc \in 1..Len(Scen) /\ l = 1 /\ run = Start

Shown(x, y, half) == RIsFinite(x) /\ RLeq(RAbs(RSub(x, y)), RAdd(half, RMul("1e-9", RAdd(1, RAbs(y)))))
ShownMean(x, T, e) == IF HasFinite(T, e) = <<>> THEN x = "-inf" ELSE Shown(x, MeanFinite(T, e), "0.000501")
BoardFails(t) ==
   LET n == Len(t.names)
       Idx(nm) == CHOOSE e \in 1..n : t.names[e] = nm
       rows == t.rows
   IN IF ~(Len(rows) = n /\ {rows[i].name : i \in 1..Len(rows)} = {t.names[e] : e \in 1..n}) THEN {"estimators_listed"}
      ELSE LET lo == TLCEval([e \in 1..n |-> AvgLo(t.T, e)])
               hi == TLCEval([e \in 1..n |-> AvgHi(t.T, e)]) IN
        (IF \A i \in 1..n : LET e == Idx(rows[i].name) IN
               RIsFinite(rows[i].avg) /\ RLeq(RSub(lo[e], "0.00501"), rows[i].avg) /\ RLeq(rows[i].avg, RAdd(hi[e], "0.00501"))
         THEN {} ELSE {"average_rank"})
        \cup (IF \A i \in 1..(n - 1) : RLeq(rows[i].avg, rows[i + 1].avg) THEN {} ELSE {"order"})
        \cup (IF Shown(VSum([i \in 1..n |-> rows[i].avg]), RDiv(n * (n + 1), 2), RMul(n, "0.00501")) THEN {} ELSE {"ranks_do_not_sum"})
        \cup UNION {IF \A i \in 1..n : ShownMean(rows[i].means[c], t.cols[c], Idx(rows[i].name))
                    THEN {} ELSE {IF c = 1 THEN "mean_primary_score" ELSE "mean_other_score"} : c \in 1..Len(t.cols)}
WinnerFails(t) ==
   (IF Len(t.winners) = Len(t.T) THEN {} ELSE {"winners_listed"})
   \cup (IF \A s \in 1..Len(t.T) : s <= Len(t.winners) =>
            t.winners[s].scenario = t.scenarios[s] /\ \E e \in Best(t.T[s]) : t.names[e] = t.winners[s].name
         THEN {} ELSE {"winner"})
\* a table built by the bake-off: the assessors' scores of fresh fits, entry by entry
Agree(x, y) == IF ~RIsFinite(y) THEN x = y ELSE RIsFinite(x) /\ RLeq(RAbs(RSub(x, y)), RMul(RAdd("1e-6", "1e-9"), RAdd(RAbs(y), "1e-12")))
TableFails(t) ==
   (IF t.estimators = t.names THEN {} ELSE {"table_estimators"})
   \cup (IF \A i \in 1..Len(t.entries) : t.entries[i].assessors = t.assessors THEN {} ELSE {"table_assessors"})
   \cup (IF \A i \in 1..Len(t.entries) : \A a \in 1..Len(t.entries[i].want) :
             t.entries[i].want[a] = "skip" \/ (a <= Len(t.entries[i].got) /\ Agree(t.entries[i].got[a], t.entries[i].want[a]))
         THEN {} ELSE {"table_score"})
SummaryFails(t) ==
   IF ~t.parsed THEN {"summary_layout"}
   ELSE LET n == Len(t.results) IN
     (IF Len(t.rows) = n /\ \A i \in 1..n : t.rows[i].name = t.results[i].name /\ t.rows[i].fixed = t.results[i].fixed
            /\ Shown(t.rows[i].rec, t.results[i].rec, "0.00501") /\ Shown(t.rows[i].fix, t.results[i].fix, "0.00501")
            /\ t.rows[i].win = (IF RLeq(t.results[i].rec, t.results[i].fix) THEN "rec" ELSE "fix")
      THEN {} ELSE {"summary_rows"})
     \cup (IF Shown(t.mrec, RDiv(FoldLeft(LAMBDA a, i : RAdd(a, t.results[i].rec), R(0), Rng(1, n)), n), "0.00501") THEN {} ELSE {"summary_mean_recommended"})
     \cup (IF Shown(t.mfix, RDiv(FoldLeft(LAMBDA a, i : RAdd(a, t.results[i].fix), R(0), Rng(1, n)), n), "0.00501") THEN {} ELSE {"summary_mean_fixed"})

(* ---- the validation protocol, event by event ---- *)
H == Scen[sc].ensembles
NE == Len(Scen[sc].names)
Close(a, b) == RIsFinite(a) /\ RLeq(RAbs(RSub(a, b)), RMul("1e-9", RAdd(1, RAbs(b))))
MatClose(G, W) == Len(G) = Len(W) /\ \A i \in 1..Len(W) : Len(G[i]) = Len(W[i]) /\ \A j \in 1..Len(W) :
   RIsFinite(G[i][j]) /\ RLeq(RAbs(RSub(G[i][j], W[i][j])), RMul("1e-6", RMax(RAbs(W[i][i]), RAbs(W[j][j]))))
Zeros == [e \in 1..NE |-> R(0)]
Sum(q, e) == FoldLeft(LAMBDA a, k : RAdd(a, RankLo(q[k], e)), R(0), Rng(1, Len(q)))
\* a problem is complete when every estimator has been scored (and, with a recommender observed, one recommended)
Done(r) == r.open /\ Len(r.scores) = NE
AfterProblem(r) ==      \* file the finished problem
   IF r.phase = "fit" THEN IF r.fit + 1 = Scen[sc].nfit THEN [r EXCEPT !.fit = 0, !.phase = "train", !.open = FALSE, !.scores = <<>>]
                           ELSE [r EXCEPT !.fit = @ + 1, !.open = FALSE, !.scores = <<>>]
   ELSE LET q == Append(r.sums, r.scores) IN
     IF Len(q) < Scen[sc].trials THEN [r EXCEPT !.sums = q, !.open = FALSE, !.scores = <<>>]
     ELSE IF r.phase = "train"
          THEN [r EXCEPT !.phase = "test", !.sums = <<>>, !.open = FALSE, !.scores = <<>>, !.rec = <<>>,
                         !.results = Append(@, [train |-> q, test |-> <<>>, rec |-> <<>>])]
          ELSE [r EXCEPT !.phase = IF Scen[sc].nfit > 0 THEN "fit" ELSE "train", !.held = @ + 1, !.sums = <<>>, !.open = FALSE,
                         !.scores = <<>>, !.rec = <<>>,
                         !.results[Len(r.results)] = [@ EXCEPT !.test = q, !.rec = r.rec]]
Event(r, t) ==
   CASE t.kind = "problem" -> [(IF Done(r) THEN AfterProblem(r) ELSE r) EXCEPT !.open = TRUE]
     [] t.kind = "score" -> [r EXCEPT !.scores = Append(@, t.value)]
     [] t.kind = "recommended" -> [r EXCEPT !.rec = Append(@, t.name)]
     [] t.kind = "results" -> IF Done(r) THEN AfterProblem(r) ELSE r
     [] OTHER -> r
EventFails(r, t, q) ==
   CASE t.kind = "problem" ->
          (IF r.open /\ ~Done(r) THEN {"problem_not_scored_by_every_estimator"} ELSE {})
          \cup (IF q.held > Len(H) THEN {"too_many_problems"}
                ELSE IF q.phase = "test" THEN (IF t.name = H[q.held] THEN {} ELSE {"tested_on_another_ensemble"})
                ELSE IF t.name = H[q.held] THEN {"held_out_ensemble_used_for_choosing"} ELSE {})
     [] t.kind = "recommended" ->   \* what was recommended on is what was fitted, and is not what was tested on
          (IF \A i \in 1..Len(t.fits) : MatClose(t.fits[i].got, t.fits[i].want) THEN {} ELSE {"fitted_on_other_data"})
          \cup (IF t.same_test /\ \A i \in 1..Len(t.tests) : {t.tests[i][a] : a \in 1..Len(t.tests[i])} \cap {t.window[b] : b \in 1..Len(t.window)} = {}
                THEN {} ELSE {"tested_on_training_data"})
     [] t.kind = "results" ->
          IF "err" \in DOMAIN t THEN {"raised:" \o t.err}
          ELSE IF ~(Len(q.results) = Len(H) /\ q.held = Len(H) + 1 /\ ~q.open) THEN {"number_of_problems"}
          ELSE IF ~(Len(t.got) = Len(H) /\ \A i \in 1..Len(H) : t.got[i].name = H[i] /\ \E e \in 1..NE : Scen[sc].names[e] = t.got[i].fixed)
               THEN {"results_listed"}
          ELSE UNION {LET d == q.results[i]
                          f == CHOOSE e \in 1..NE : Scen[sc].names[e] = t.got[i].fixed
                          tr == TLCEval([e \in 1..NE |-> Sum(d.train, e)])
                          n == Scen[sc].trials
                          chosen(k) == CHOOSE e \in 1..NE : Scen[sc].names[e] = d.rec[k]
                      IN (IF \A e \in 1..NE : RLeq(tr[f], tr[e]) THEN {} ELSE {"best_fixed"})
                         \cup (IF Close(t.got[i].fix, RDiv(Sum(d.test, f), n)) THEN {} ELSE {"rank_of_best_fixed"})
                         \cup (IF Len(d.rec) # n THEN {}
                               ELSE IF Close(t.got[i].rec, RDiv(FoldLeft(LAMBDA a, k : RAdd(a, RankLo(d.test[k], chosen(k))), R(0), Rng(1, n)), n))
                                    THEN {} ELSE {"rank_of_recommended"})
                         \cup (IF RIsFinite(t.got[i].rec) /\ RLeq(1, t.got[i].rec) /\ RLeq(t.got[i].rec, NE) THEN {} ELSE {"rank_out_of_range"})
                      : i \in 1..Len(H)}
     [] OTHER -> {}
Fails(t, r, q) ==
   CASE t.kind = "board" -> IF "err" \in DOMAIN t THEN {"leaderboard_raised:" \o t.err} ELSE BoardFails(t)
     [] t.kind = "winners" -> IF "err" \in DOMAIN t THEN {"winners_raised:" \o t.err} ELSE WinnerFails(t)
     [] t.kind = "table" -> IF "err" \in DOMAIN t THEN {"bakeoff_raised:" \o t.err} ELSE TableFails(t)
     [] t.kind = "summary" -> IF "err" \in DOMAIN t THEN {"report_raised:" \o t.err} ELSE SummaryFails(t)
     [] OTHER -> EventFails(r, t, q)
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> sc, l |-> l, fails |-> f]))
Phase0 == IF "nfit" \in DOMAIN Scen[sc] /\ Scen[sc].nfit > 0 /\ l = 1 THEN [run EXCEPT !.phase = "fit"] ELSE run
Next == /\ l <= Len(Ev(sc))
        /\ LET t == Ev(sc)[l]  r == Phase0 IN
           \E q \in {TLCEval(Event(r, t))} :
             /\ run' = q
             /\ Report(TLCEval(Fails(t, r, q)))
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
