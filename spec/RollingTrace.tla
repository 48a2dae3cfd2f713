---------------------------- MODULE RollingTrace ----------------------------
(***************************************************************************)
(* A recorded evaluation: the returns, the lengths, and - at every window  *)
(* the harness visited - the covariance every estimator gives for the      *)
(* training rows and the estimator recommended for them.  The specification*)
(* walks the windows, accumulates realised variances and judges the        *)
(* reported numbers at the end.                                            *)
(***************************************************************************)
EXTENDS Rolling, Json, IOUtils, SequencesExt
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, t, acc, choices, can, orc
vars == <<sc, l, t, acc, choices, can, orc>>
View == <<sc, l>>
S == Scen[sc]
P == Len(S.X[1])
NE == Len(S.names)
Init == /\ sc \in 1..Len(Scen) /\ l = 1 /\ t = 0
        /\ acc = [fixed |-> [e \in 1..Len(Scen[sc].names) |-> R(0)], rec |-> R(0), oracle |-> R(0), ew |-> R(0)]
        /\ choices = [e \in 1..Len(Scen[sc].names) |-> 0]
        \* can: estimators whose covariances could all be inverted reliably; orc: so could the best of every window
        /\ can = 1..Len(Scen[sc].names) /\ orc = TRUE
Index(nm) == CHOOSE e \in 1..NE : S.names[e] = nm
Usable(C) == Len(C) = P /\ (\A i \in 1..P : Len(C[i]) = P) /\ IsFiniteM(C) /\ RLt(0, MaxAbs(C)) /\ CondAtMost(C, "1e7")

HasPrecision(Q) == Len(Q) = P /\ (\A i \in 1..P : Len(Q[i]) = P) /\ IsFiniteM(Q) /\ ~REq(0, VSum(MVec(Q, Ones(P))))
FromPrecision(Q) == LET u == TLCEval(MVec(Q, Ones(P))) IN VScale(RDiv(1, VSum(u)), u)

Weights(w, e, ok) == TLCEval(IF e \in ok THEN MinVar(w.covs[e]) ELSE FromPrecision(w.precs[e]))
Close(a, b) == RIsFinite(a) /\ RLeq(RAbs(RSub(a, b)), RMul("1e-6", RAdd(RAbs(b), "1e-30")))
\* the printed report: estimators by increasing volatility, to four decimals
Shown(x, y) == RLeq(RAbs(RSub(x, y)), RAdd("0.0000500001", RMul("1e-12", RAbs(y))))
Vol(o, nm) == o.fixed[CHOOSE i \in 1..Len(o.fixed) : o.fixed[i].name = nm].vol
Better(o) == Cardinality({i \in 1..Len(o.fixed) : RLt(o.fixed[i].vol, o.rec)})
ReportFails(o) ==
   IF (\E i \in 1..Len(o.fixed) : ~RIsFinite(o.fixed[i].vol)) \/ ~RIsFinite(o.ew) \/ ~RIsFinite(o.rec) \/ ~RIsFinite(o.oracle) THEN {}
   ELSE IF ~o.report.parsed THEN {"report_layout"}
   ELSE LET r == o.report.rows IN
      (IF Len(r) = Len(o.fixed) /\ {r[i].name : i \in 1..Len(r)} = {o.fixed[i].name : i \in 1..Len(o.fixed)} THEN
          (IF \A i \in 1..Len(r) : Shown(r[i].vol, Vol(o, r[i].name)) THEN {} ELSE {"report_volatility"})
          \cup (IF \A i \in 1..(Len(r) - 1) : RLeq(Vol(o, r[i].name), Vol(o, r[i + 1].name)) THEN {} ELSE {"report_order"})
          \cup (IF Shown(o.report.best, Vol(o, r[1].name)) /\ o.report.bestname = r[1].name THEN {} ELSE {"report_best_fixed"})
       ELSE {"report_estimators"})
      \cup (IF Shown(o.report.ew, o.ew) THEN {} ELSE {"report_equal_weight"})
      \cup (IF Shown(o.report.oracle, o.oracle) THEN {} ELSE {"report_oracle"})
      \cup (IF Shown(o.report.rec, o.rec) THEN {} ELSE {"report_recommender"})
      \cup (IF o.report.rank = 1 + Better(o) /\ o.report.of = Len(o.fixed) THEN {} ELSE {"report_rank"})

NWin == Len(S.windows)
OutFails ==
   LET o == S.out IN
   IF "err" \in DOMAIN o THEN {"raised:" \o o.err}
   ELSE (IF o.kept THEN {} ELSE {"returns_modified"})
     \cup (IF {o.fixed[i].name : i \in 1..Len(o.fixed)} = {S.names[e] : e \in 1..NE} /\ Len(o.fixed) = NE THEN {} ELSE {"estimators"})
     \cup (IF \A i \in 1..Len(o.counts) : \E e \in 1..NE : o.counts[i].name = S.names[e] /\ o.counts[i].n = choices[e]
           THEN {} ELSE {"recommendation_counts"})
     \cup (IF FoldLeft(LAMBDA a, k : a + o.counts[k].n, 0, Rng(1, Len(o.counts))) = NWin THEN {} ELSE {"counts_do_not_sum_to_windows"})
     \cup (IF Close(o.ew, Annual(acc.ew, NWin)) THEN {} ELSE {"equal_weight"})
     \cup (IF \A i \in 1..Len(o.fixed) : \E e \in 1..NE : o.fixed[i].name = S.names[e]
                  /\ (e \in can => Close(o.fixed[i].vol, Annual(acc.fixed[e], NWin))) THEN {} ELSE {"fixed"})
     \cup (IF \A e \in 1..NE : choices[e] > 0 => e \in can
           THEN IF Close(o.rec, Annual(acc.rec, NWin)) THEN {} ELSE {"recommender"} ELSE {})
     \cup (IF orc THEN IF Close(o.oracle, Annual(acc.oracle, NWin)) THEN {} ELSE {"oracle"} ELSE {})
     \cup (IF RIsFinite(o.ew) THEN {} ELSE {"equal_weight_not_finite"})
     \cup (IF ~RIsFinite(o.oracle) THEN {} ELSE IF \A i \in 1..Len(o.fixed) : RIsFinite(o.fixed[i].vol) => RLeq(o.oracle, RMul("1.000001", o.fixed[i].vol))
           THEN {} ELSE {"oracle_worse_than_a_fixed_choice"})
     \cup (IF ~RIsFinite(o.oracle) \/ ~RIsFinite(o.rec) THEN {} ELSE IF RLeq(o.oracle, RMul("1.000001", o.rec)) THEN {} ELSE {"oracle_worse_than_recommender"})
     \cup ReportFails(o)
Report(f) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> sc, l |-> l, fails |-> f]))
Walk == /\ l <= NWin /\ Fits(t, Len(S.X), S.train, S.test)
        /\ LET w == S.windows[l]
               Y == TestRows(S.X, t, S.train, S.test)
           IN \E ok \in {TLCEval({e \in 1..NE : Usable(w.covs[e])})} :
              \E v \in {TLCEval([e \in 1..NE |-> IF e \in ok \/ HasPrecision(w.precs[e])
                                              THEN Realised(Y, Weights(w, e, ok)) ELSE R(-1)])} :
              \E best \in {FoldLeft(LAMBDA a, e : RMin(a, v[e]), R("1e300"), SetToSeq(ok))} :
              LET clear == \A e \in (1..NE) \ ok : RLt(RMul(2, best), v[e]) IN    \* certainly not the best one
              /\ Report(IF w.start # t THEN {"harness_window"} ELSE {})
              /\ acc' = [fixed |-> [e \in 1..NE |-> RAdd(acc.fixed[e], v[e])], rec |-> RAdd(acc.rec, v[Index(w.rec)]),
                         oracle |-> RAdd(acc.oracle, best), ew |-> RAdd(acc.ew, Realised(Y, Equal(P)))]
              /\ choices' = [choices EXCEPT ![Index(w.rec)] = @ + 1]
              /\ can' = can \cap ok /\ orc' = (orc /\ ok # {} /\ clear)
        /\ t' = NextStart(t, S.step) /\ l' = l + 1 /\ sc' = sc
End == /\ l = NWin + 1
       /\ Report(TLCEval((IF Fits(t, Len(S.X), S.train, S.test) THEN {"harness_window"} ELSE {}) \cup OutFails))
       /\ PrintT("@@DID " \o ToJson([can |-> Cardinality(can), orc |-> orc, rec |-> \A e \in 1..NE : choices[e] > 0 => e \in can]))
       /\ l' = l + 1 /\ UNCHANGED <<sc, t, acc, choices, can, orc>>
Next == Walk \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
