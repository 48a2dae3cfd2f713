---------------------------- MODULE JudgesTrace ----------------------------
(***************************************************************************)
(* Recorded scores of the judges, and the power experiment event by event. *)
(***************************************************************************)
EXTENDS Judges, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, run
vars == <<sc, l, run>>
View == <<sc, l>>
Ev(k) == Scen[k].calls
Init == sc \in 1..Len(Scen) /\ l = 1 /\ run = [truths |-> 0, truth |-> <<>>, cands |-> <<>>, open |-> <<>>, pairs |-> <<>>, gaps |-> <<>>]
\* one paired comparison: the judge's two scores on the same rows of the same trial
OpenAt(r, t) == {i \in 1..Len(r.open) : r.open[i].name = t.name /\ r.open[i].n = t.n}
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Event(r, t, k) ==
   CASE t.kind = "truth" -> [r EXCEPT !.truths = @ + 1, !.truth = t.T]
     [] t.kind = "cand" -> [r EXCEPT !.cands = Append(@, [trial |-> r.truths, div |-> ST!Div(t.C, r.truth)])]
     [] t.kind = "scored" -> IF OpenAt(r, t) = {} THEN [r EXCEPT !.open = Append(@, t)]
                             ELSE LET i == CHOOSE j \in OpenAt(r, t) : TRUE
                                      m(C) == Measure(Scen[k].gold, Scen[k].o, C, r.truth)
                                  IN [r EXCEPT !.open = Drop(@, i),
                                            !.pairs = Append(@, [name |-> t.name, n |-> t.n, trial |-> r.truths, a |-> r.open[i].v, b |-> t.v,
                                                                 ab |-> RSub(m(r.open[i].C), m(t.C))])]
     [] OTHER -> r
Fail(ok, nm) == IF ok THEN {} ELSE {nm}
NearTo(x, y, scale) == RIsFinite(x) /\ RLeq(RAbs(RSub(x, y)), RMul("1e-7", scale))
Right(q) == IF RLt(q.ab, 0) THEN RLt(q.b, q.a) ELSE RLt(q.a, q.b)
Final(t, r) ==
   IF "err" \in DOMAIN t THEN {"experiment_raised:" \o t.err}
   ELSE LET of(k) == SelectSeq(r.cands, LAMBDA c : c.trial = k)
            \* both candidates are known and clearly distinguishable
            clear(k) == LET c == of(k) IN Len(c) = 2 /\ RLt(RAdd(RMul(t.min_gap, "1.000001"), "1e-9"), RAbs(RSub(c[1].div, c[2].div)))
            sel(nm, n) == SelectSeq(r.pairs, LAMBDA q : q.name = nm /\ q.n = n)
            trials == TLCEval({r.pairs[i].trial : i \in 1..Len(r.pairs)})
            gap(k) == LET i == CHOOSE j \in 1..Len(r.pairs) : r.pairs[j].trial = k IN RAbs(r.pairs[i].ab)
        IN Fail(r.truths = t.trials /\ r.open = <<>>, "trials")
           \cup Fail(\A k \in trials : RLeq(RMul(t.min_gap, "0.999999"), gap(k)), "indistinguishable_pair_counted")
           \cup Fail(t.judges # <<>> => \A k \in 1..r.truths : clear(k) => k \in trials, "distinguishable_pair_skipped")
           \cup Fail(trials # {} /\ t.gap # "none" => NearTo(t.gap, RDiv(FoldLeft(LAMBDA acc, k : RAdd(acc, gap(k)), R(0), SetToSeq(trials)), Cardinality(trials)), 1), "mean_gap")
           \cup Fail(trials # {} => \A i \in 1..Len(t.power) : LET q == TLCEval(sel(t.power[i].name, t.power[i].n)) IN
                        Len(q) = Cardinality(trials) /\ NearTo(t.power[i].v, RDiv(Cardinality({j \in 1..Len(q) : Right(q[j])}), Len(q)), 1), "power")
           \cup Fail(trials # {} => {<<t.power[i].name, t.power[i].n>> : i \in 1..Len(t.power)} = {<<nm, n>> : nm \in {t.judges[i] : i \in 1..Len(t.judges)}, n \in {t.grid[i] : i \in 1..Len(t.grid)}}, "judges_listed")
Fails(t, r, q) ==
   CASE t.kind \in {"truth", "cand"} -> Fail(r.open = <<>>, "unpaired_score")
     [] t.kind = "scored" -> IF r.truth = <<>> THEN {"scored_before_any_truth"}
                             ELSE Fail(\A i \in OpenAt(r, t) : r.open[i].first = t.first /\ r.open[i].sum = t.sum, "compared_on_different_rows")
                                  \cup Fail(\A i \in OpenAt(r, t) : r.open[i].how = t.how, "compared_by_different_judges")
     [] t.kind = "done" -> Final(t, q)
     [] t.kind = "judge" ->
          IF "err" \in DOMAIN t THEN {t.name \o "_raised:" \o t.err}
          ELSE Fail(NearTo(t.v, Judge(t.name, t.C, t.X, t.o), RMul(Len(t.C), Mass(t.C, t.X))), "score_" \o t.name)
     [] t.kind = "report" ->   \* judges ordered by mean power, each power shown
          IF "err" \in DOMAIN t THEN {"report_raised:" \o t.err}
          ELSE LET n == Len(t.power)
                   mean(i) == VMeanR(t.power[i].v)
                   of(nm) == CHOOSE i \in 1..n : t.power[i].name = nm
               IN IF ~(Len(t.rows) = n /\ {t.rows[i].name : i \in 1..Len(t.rows)} = {t.power[i].name : i \in 1..n}) THEN {"report_lists"}
                  ELSE Fail(\A i \in 1..(n - 1) : RLeq(mean(of(t.rows[i + 1].name)), mean(of(t.rows[i].name))), "report_order")
                       \cup Fail(\A i \in 1..n : LET p == t.power[of(t.rows[i].name)].v IN
                              Len(t.rows[i].v) = Len(p) + 1 /\ \A k \in 1..Len(p) : RLeq(RAbs(RSub(t.rows[i].v[k], p[k])), "0.000501"), "report_power")
                       \cup Fail(\A i \in 1..n : RLeq(RAbs(RSub(t.rows[i].v[Len(t.rows[i].v)], mean(of(t.rows[i].name)))), "0.000501"), "report_mean")
     [] OTHER -> {"unknown_call"}
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> sc, l |-> l, fails |-> f]))
Next == /\ l <= Len(Ev(sc))
        /\ \E t \in {Ev(sc)[l]} : \E r \in {run} : \E q \in {TLCEval(Event(r, t, sc))} :
             /\ run' = q
             /\ Report(TLCEval(Fails(t, r, q)))
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
