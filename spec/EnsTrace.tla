------------------------------ MODULE EnsTrace ------------------------------
(* Recorded synthetic problems judged by Ensembles. *)
EXTENDS Ensembles, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>
View == vars
Init == sc \in 1..Len(Scen) /\ l = 1
TruthFails(t) ==
   IF ~Square(t.T, t.p) \/ ~IsFiniteM(t.T) THEN {"truth_shape"}
   ELSE (IF Symmetric(t.T) THEN {} ELSE {"truth_not_symmetric"})
        \cup (IF Truth(t.family, t.T) THEN {} ELSE {"not_a_" \o t.family})
SampleFails(t) ==
   LET T == TLCEval(IF t.family = "calm" THEN EquiOf(t.p, "0.2") ELSE t.T) IN
   IF Len(t.X) # t.n \/ (\E k \in 1..Len(t.X) : Len(t.X[k]) # t.p) THEN {"sample_shape"}
   ELSE IF ~IsFiniteM(t.X) \/ ~Square(T, t.p) \/ ~IsFiniteM(T) THEN {"sample_not_finite"}
   ELSE IF t.n < t.least THEN {} ELSE RowFails(t.X, T, t.heavy)
Mixed(t) ==
   LET ss == t.samples
       far == TLCEval(FoldLeft(LAMBDA a, x : a \o FarRows(x.X, x.T), <<>>, ss))
       rows == TLCEval(FoldLeft(LAMBDA a, x : a + Len(x.X), 0, ss))
   IN IF \E k \in 1..Len(ss) : ~IsFiniteM(ss[k].X) \/ ~IsFiniteM(ss[k].T) THEN {"sample_not_finite"}
      ELSE MixFails(rows, far, 8, "0.05", 8)
Fails(t) ==
   IF "err" \in DOMAIN t THEN {t.kind \o "_raised:" \o t.err} ELSE
   CASE t.kind = "truth" -> TruthFails(t)
     [] t.kind = "sample" -> SampleFails(t)
     [] t.kind = "shape" -> (IF t.rows = t.n /\ t.cols = t.p THEN {} ELSE {"sample_shape"})
     [] t.kind = "apart" -> (IF {t.train[i] : i \in 1..Len(t.train)} \cap {t.test[i] : i \in 1..Len(t.test)} = {} THEN {} ELSE {"test_rows_seen_in_training"})
     [] t.kind = "flag" -> (IF t.heavy = t.want THEN {} ELSE {"tails_of_" \o t.name})
     [] t.kind = "mix" -> Mixed(t)
     [] t.kind = "names" -> (IF {t.want[i] : i \in 1..Len(t.want)} \subseteq {t.got[i] : i \in 1..Len(t.got)} THEN {} ELSE {t.what \o "_missing"})
     [] t.kind = "seeded" -> (IF t.again THEN {} ELSE {"not_a_function_of_the_seed"}) \cup (IF t.differs THEN {} ELSE {"seed_ignored"})
     [] t.kind = "perturbed" -> PerturbedFails(t.T, t.C, t.eps)
     [] t.kind = "subspaces" -> SubspaceFails(t.W, t.k, t.n, t.p)
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == /\ l <= Len(Scen[sc].calls)
        /\ Report(TLCEval(Fails(Scen[sc].calls[l])), sc, l)
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
