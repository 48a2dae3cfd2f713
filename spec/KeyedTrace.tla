----------------------------- MODULE KeyedTrace -----------------------------
(***************************************************************************)
(* The keyed surface: what an adapter shows is a function of the           *)
(* dictionaries it has learnt (in order), by whatever verb, whatever was   *)
(* asked before, and whatever its sibling built from the same prototype    *)
(* did; and all views of one query describe one matrix.                    *)
(***************************************************************************)
EXTENDS HPLinAlg, Json, IOUtils, TLC

Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, hist, memo, cmp
vars == <<sc, l, hist, memo, cmp>>
View == <<sc, l>>
Init == /\ sc \in 1..Len(Scen) /\ l = 1 /\ hist = [o \in 1..2 |-> <<>>] /\ memo = <<>> /\ cmp = 0

Set(q) == {q[i] : i \in 1..Len(q)}
Default(kind, h) == IF kind = "fixed" THEN h[1].names ELSE h[Len(h)].names
Shaped(A, p) == /\ Len(A) = p /\ (\A i \in 1..p : Len(A[i]) = p) /\ IsFiniteM(A)
SameM(A, B) == NearM(A, B, RAdd(RMul("1e-9", RMax(MaxAbs(A), MaxAbs(B))), "1e-200"))
UnitCorr(A) == LET C == CorrOf(A) IN
   [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN R(1) ELSE C[i][j]]]
\* the adapter always saw the same names, so nothing was imputed or filled in
Complete(h) == \A i \in 1..Len(h) : Set(h[i].names) = Set(h[1].names)
Positions(sub, all) == [i \in 1..Len(sub) |-> CHOOSE j \in 1..Len(all) : all[j] = sub[i]]

ViewFails(s, h, e) ==
   IF h = <<>> THEN (IF "err" \in DOMAIN e /\ e.err = "ValueError" THEN {} ELSE {"unfitted_query_did_not_raise_ValueError"})
   ELSE IF "err" \in DOMAIN e THEN {"raised:" \o e.err}
   ELSE LET ks == IF e.ask = <<>> THEN Default(s.kind, h) ELSE e.ask
            p == Len(ks)
        IN IF e.keys # ks THEN {"names_returned"}
           ELSE IF ~(Shaped(e.arr, p) /\ Shaped(e.cov, p) /\ Shaped(e.corr, p)) THEN {"malformed_matrix"}
           ELSE (IF SameM(e.arr, e.cov) THEN {} ELSE {"get_cov"})
             \cup (IF NearM(e.corr, UnitCorr(e.arr), "1e-8") THEN {} ELSE {"get_corr"})
             \cup (IF ~s.frames THEN {}
                   ELSE IF e.findex = ks /\ e.fcols = ks /\ Shaped(e.frame, p) THEN
                        IF SameM(e.arr, e.frame) THEN {} ELSE {"to_frame"}
                   ELSE {"to_frame_labels"})
             \cup (IF e.ask # <<>> THEN {}
                   ELSE IF e.dkeys # ks \/ ~Shaped(e.dcov, p) \/ ~Shaped(e.dcorr, p) \/ ~Shaped(e.dalias, p) THEN {"dictionary_keys"}
                   ELSE (IF SameM(e.arr, e.dcov) THEN {} ELSE {"covariance_dict"})
                        \cup (IF SameM(e.arr, e.dalias) THEN {} ELSE {"covariance_alias"})
                        \cup (IF NearM(e.dcorr, UnitCorr(e.arr), "1e-8") THEN {} ELSE {"correlation_dict"}))
             \* against every other view of the same history
             \cup UNION {LET m == memo[k] IN
                   IF m.hist # h THEN {}
                   ELSE IF m.ks = ks THEN (IF SameM(e.arr, m.arr) THEN {} ELSE {"differs_from_same_history"})
                   ELSE IF ~(Set(ks) \subseteq Set(m.ks)) \/ ~(s.kind = "fixed" \/ Complete(h)) THEN {}
                   ELSE LET q == Positions(ks, m.ks) IN
                        IF NearM(e.arr, MSel(m.arr, q, q), RAdd(RMul("1e-9", MaxAbs(m.arr)), "1e-200"))
                        THEN {} ELSE {"sub_query_is_not_a_selection"} : k \in 1..Len(memo)}

HistOf(e) == IF "hist" \in DOMAIN e THEN e.hist ELSE hist[e.o]      \* a reference reading names its own
Fails(s, e) ==
   (IF e.op = "view" THEN ViewFails(s, HistOf(e), e)
    ELSE IF "err" \in DOMAIN e THEN {e.op \o "_raised:" \o e.err} ELSE {})
   \cup (IF "trained" \in DOMAIN e /\ e.trained THEN {"prototype_trained"} ELSE {})
   \cup (IF "dirty" \in DOMAIN e /\ e.dirty THEN {"argument_modified"} ELSE {})

Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next ==
   LET s == Scen[sc] IN
   /\ l <= Len(s.events)
   /\ LET e == s.events[l] IN
      /\ hist' = IF e.op = "copy" THEN [hist EXCEPT ![e.q] = hist[e.o]]
                 ELSE IF e.op = "view" THEN hist
                 ELSE [hist EXCEPT ![e.o] = @ \o e.dicts]
      /\ LET f == TLCEval(Fails(s, e))
             good == e.op = "view" /\ "arr" \in DOMAIN e /\ f = {}
         IN /\ Report(f, sc, l)
            /\ memo' = IF good THEN Append(memo, [hist |-> HistOf(e), ks |-> e.keys, arr |-> e.arr]) ELSE memo
            /\ cmp' = IF good /\ \E k \in 1..Len(memo) : memo[k].hist = HistOf(e) THEN cmp + 1 ELSE cmp
      /\ IF l = Len(s.events) THEN PrintT("@@END " \o ToJson([sc |-> sc, cmp |-> cmp'])) ELSE TRUE
   /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
