--------------------------- MODULE RecommendTrace ---------------------------
(***************************************************************************)
(* Recorded calls: `features` of a window judged against Features,         *)
(* `same` two feature records that have to agree, `suggest` the ranking    *)
(* judged against the frozen tree walked with the reported features.       *)
(***************************************************************************)
EXTENDS Recommend
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>
View == <<sc, l>>
Init == sc \in 1..Len(Scen) /\ l = 1

Num(g, k) == k \in DOMAIN g /\ RIsFinite(g[k])
Off(k, a, b, tol) == IF RLeq(RAbs(RSub(a, b)), tol) THEN {} ELSE {k}
\* eigenvalues carry rounding of about 1e-15 of the largest: the condition number and the effective
\* rank are judged where the smallest one is resolved or certainly at the floor
Resolved(f) == \/ RLt(RMul("1e-8", f.largest), f.smallest)
               \/ RLt(f.smallest, "1e-14") /\ RLt(f.largest, 20)
FeatureFails(X, g, mag) ==
   IF \E k \in FeatureNames : ~Num(g, k) THEN {"feature_missing_or_nonfinite"}
   ELSE LET f == TLCEval(Features(X))
            \* rounding of variances and fourth moments of data far from the origin
            eps == RMul("1e-13", RDiv(RSq(mag), RMax(RMul("1e-12", 1), RMax(f.largest, 0))))
            tol(x) == RMul(RAdd("1e-7", eps), RAdd(1, RAbs(x)))
        IN (IF g.n = f.n /\ g.p = f.p THEN {} ELSE {"n_or_p"})
           \cup Off("p_over_n", g.p_over_n, f.p_over_n, "1e-12")
           \cup Off("effective_rank", g.effective_rank, f.effective_rank, tol(f.effective_rank))
           \cup Off("sphericity", g.sphericity, f.sphericity, tol(1))
           \cup (IF Resolved(f) THEN Off("condition_number", g.condition_number, f.condition_number, RMul("1e-5", f.condition_number)) ELSE {})
           \cup Off("mean_abs_offdiag_corr", g.mean_abs_offdiag_corr, f.mean_abs_offdiag_corr, tol(1))
           \cup Off("avg_excess_kurtosis", g.avg_excess_kurtosis, f.avg_excess_kurtosis, RMul(100, tol(f.avg_excess_kurtosis)))
SameFails(t) ==
   IF \E k \in FeatureNames : ~Num(t.a, k) \/ ~Num(t.b, k) THEN {"feature_missing_or_nonfinite"}
   ELSE UNION {LET x == t.a[k]  y == t.b[k] IN
               IF RLeq(RAbs(RSub(x, y)), RMul(t.tol, RAdd(1, RAbs(y)))) THEN {} ELSE {k \o "_" \o t.law}
               : k \in IF t.cond THEN FeatureNames ELSE FeatureNames \ {"condition_number"}}

SuggestFails(t) ==
   IF OnEdge(t.f, 0) THEN {}
   ELSE (IF \E i, j \in 1..Len(t.got) : i # j /\ t.got[i] = t.got[j] THEN {"duplicates"} ELSE {})
        \cup (IF \E i \in 1..Len(t.got) : \A k \in 1..Len(Registry) : Registry[k] # t.got[i] THEN {"not_registered"} ELSE {})
        \cup (IF t.got = Suggest(t.f, t.top) THEN {} ELSE {"ranking"})
        \cup (IF t.again = t.got THEN {} ELSE {"not_deterministic"})
        \cup (IF t.classes THEN {} ELSE {"not_the_registered_classes"})
Fails(t) ==
   IF "err" \in DOMAIN t THEN {t.kind \o "_raised:" \o t.err}
   ELSE (IF t.kept THEN {} ELSE {t.kind \o "_modified_its_argument"})
        \cup (CASE t.kind = "features" -> FeatureFails(t.X, t.got, t.mag)
                [] t.kind = "same" -> SameFails(t)
                [] t.kind = "suggest" -> SuggestFails(t))
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == /\ l <= Len(Scen[sc].calls)
        /\ Report(TLCEval(Fails(Scen[sc].calls[l])), sc, l)
        /\ LET t == Scen[sc].calls[l] IN
           IF t.kind = "suggest" /\ "err" \notin DOMAIN t
           THEN PrintT("@@LEAF " \o ToJson([leaf |-> LeafFrom(t.f, 0), hard |-> Hard(t.f), heavy |-> Heavy(t.f)])) ELSE TRUE
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
