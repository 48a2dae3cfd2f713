------------------------------ MODULE DynTrace ------------------------------
(***************************************************************************)
(* Trace validation of DynamicUniverse.  Events:                           *)
(*  update  names (dictionary order), vals, fed (which wrapped estimator   *)
(*          was fed which numbers, instances numbered by first feed),      *)
(*          count (universes reported);                                    *)
(*  query   names, keys and the matrix returned.                           *)
(* Each universe carries the state of its own estimator (Estimators.tla).  *)
(* After a tie between eviction victims what is tracked is not determined, *)
(* and the rest of that run is left unconstrained (amb).                   *)
(***************************************************************************)
EXTENDS DynamicUniverse, Estimators, Json, IOUtils

Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, t, U, est, last, amb
\* est: born step -> [id |-> instance, cols |-> names in the order fed, e |-> estimator state, xmax]
vars == <<sc, l, t, U, est, last, amb>>
View == <<sc, l>>
Init == /\ sc \in 1..Len(Scen) /\ l = 1 /\ t = 0 /\ U = <<>> /\ est = <<>> /\ last = <<>> /\ amb = FALSE

Set(q) == {q[i] : i \in 1..Len(q)}
ValOf(ev, k) == ev.vals[CHOOSE j \in 1..Len(ev.names) : ev.names[j] = k]

(* ---- update ---- *)
\* names whose values (distinct within a dictionary) were fed, <<>> if they are not values of the dictionary
NamesFed(ev, v) ==
   IF \A i \in 1..Len(v) : \E j \in 1..Len(ev.names) : REq(ev.vals[j], v[i])
   THEN [i \in 1..Len(v) |-> ev.names[CHOOSE j \in 1..Len(ev.names) : REq(ev.vals[j], v[i])]]
   ELSE <<>>
Updated(U1, now) == {u \in Set(U1) : u.hist[Len(u.hist)] = now}
Evicted(U1, ev, now) == {u \in Set(U) : u.set \subseteq Set(ev.names) /\ ~Tracked(U1, u.set)}
FedFails(ev, U1, now) ==
   LET up  == Updated(U1, now)
       old == {u \in up : u.born < now}
       fedFor(u) == IF u.born < now THEN SelectSeq(ev.fed, LAMBDA r : r.id = est[u.born].id)
                    ELSE SelectSeq(ev.fed, LAMBDA r : \A b \in 1..Len(est) : est[b].id # r.id)
       good(u) == /\ Len(fedFor(u)) = 1
                  /\ LET nm == NamesFed(ev, fedFor(u)[1].v) IN
                     /\ Set(nm) = u.set /\ Len(nm) = Cardinality(u.set)
                     /\ u.born < now => nm = est[u.born].cols
   IN (IF \A u \in old : good(u) THEN {} ELSE {"covered_set_not_updated_once"})
      \cup (IF \A u \in up \ old : good(u) THEN {} ELSE {"new_set_not_started"})
      \* (a set evicted in this very step may or may not have been updated first)
      \cup (IF Len(SelectSeq(ev.fed, LAMBDA r : \A u \in Evicted(U1, ev, now) : est[u.born].id # r.id)) = Cardinality(up)
            THEN {} ELSE {"wrong_sets_updated"})
\* the estimators after the step: est is indexed by step, a dummy where no universe was born
NewEst(s, ev, U1, now) ==
   LET fresh == {u \in Set(U1) : u.born = now}
       rec == SelectSeq(ev.fed, LAMBDA r : \A b \in 1..Len(est) : est[b].id # r.id)
       cols == IF fresh = {} THEN <<>> ELSE ev.names
       fedcols == IF rec = <<>> THEN <<>> ELSE NamesFed(ev, rec[1].v)
       use == IF Set(fedcols) = Set(cols) /\ Len(fedcols) = Len(cols) THEN fedcols ELSE cols
       new == [id |-> IF fresh = {} \/ rec = <<>> THEN 0 - now ELSE rec[1].id, cols |-> use,
               e |-> IF fresh = {} THEN Blank(1) ELSE EInit(s.cls, s.prm, Len(use)), xmax |-> R(0)]
       feed(r) == LET x == [i \in 1..Len(r.cols) |-> ValOf(ev, r.cols[i])]
                  IN [r EXCEPT !.e = EStep(s.cls, s.prm, @, x), !.xmax = RMax(@, VMaxAbs(x))]
       upd == {u.born : u \in Updated(U1, now)}
       all == Append(est, new)
   IN [b \in 1..Len(all) |-> IF b \in upd THEN feed(all[b]) ELSE all[b]]

(* ---- query ---- *)
Entry(s, u, a, b) ==
   LET r == est[u.born]
       at(k) == CHOOSE i \in 1..Len(r.cols) : r.cols[i] = k
   IN ECov(s.cls, s.prm, r.e)[at(a)][at(b)]
QueryAmb(ks) == \E i, j \in 1..Len(ks) : Cardinality(Sources(U, ks[i], ks[j])) > 1
Assembled(s, ks) ==
   LET n == Len(ks)
       src(i, j) == Sources(U, ks[i], ks[j])
       known == [i \in 1..n |-> [j \in 1..n |-> src(i, j) # {}]]
       V == TLCEval([i \in 1..n |-> [j \in 1..n |->
               IF known[i][j] THEN Entry(s, U[CHOOSE m \in src(i, j) : TRUE], ks[i], ks[j]) ELSE R(0)]])
       cnt == Cardinality({<<i, j>> \in (1..n) \X (1..n) : i # j /\ known[i][j]})
       tot == VSum([i \in 1..n |-> VSum([j \in 1..n |-> IF i # j /\ known[i][j] THEN V[i][j] ELSE R(0)])])
       fill == IF cnt = 0 THEN R(0) ELSE RDiv(tot, cnt)
   IN [i \in 1..n |-> [j \in 1..n |-> IF known[i][j] THEN V[i][j] ELSE fill]]
Shaped(A, p) == /\ Len(A) = p /\ (\A i \in 1..p : Len(A[i]) = p) /\ IsFiniteM(A)
SymExact(A) == \A i, j \in 1..Len(A) : REq(A[i][j], A[j][i])
QueryFails(s, ev) ==
   LET ks == IF ev.names = <<>> THEN last ELSE ev.names
       n == Len(ks)
   IN IF ev.keys # ks THEN {"keys_returned"}
      ELSE IF ~Shaped(ev.cov, n) THEN {"matrix_shape_or_nonfinite"}
      ELSE IF QueryAmb(ks) THEN {}
      ELSE LET M == TLCEval(Assembled(s, ks))
               big == MaxAbs(M)
               xm == FoldLeft(LAMBDA m, r : RMax(m, r.xmax), R(0), est)
               tol == RAdd(RMul("1e-7", big), RMul("1e-13", RSq(xm)))
               E == TLCEval(FloorEig(M, 0))
           IN (IF NearM(ev.cov, E, tol) THEN {}
               ELSE IF RLeq(RMul("1e-7", big), MinEig(M)) THEN {"assembled_entries"} ELSE {"repaired_matrix"})
              \cup (IF RLeq(RNeg(RMul("1e-12", big)), MinEig(ev.cov)) THEN {} ELSE {"not_positive_semidefinite"})
              \cup (IF SymExact(ev.cov) THEN {} ELSE {"not_symmetric"})

Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))

Next ==
   LET s == Scen[sc] IN
   /\ l <= Len(s.events)
   /\ LET ev == s.events[l] IN
      IF ev.op = "update"
      THEN /\ t' = t + 1
           /\ LET succ == Observe(U, Set(ev.names), t + 1, s.maxU, s.maxS)
                  U1 == CHOOSE V \in succ : TRUE
              IN /\ U' = U1
                 /\ amb' = (amb \/ Cardinality(succ) > 1)
                 /\ est' = TLCEval(NewEst(s, ev, U1, t + 1))
                 /\ Report(IF amb THEN {}
                           ELSE IF "err" \in DOMAIN ev THEN {"raised:" \o ev.err}
                           ELSE FedFails(ev, U1, t + 1)
                                \cup (IF ev.count = Len(U1) THEN {} ELSE {"number_tracked"}), sc, l)
           /\ last' = ev.names
      ELSE /\ UNCHANGED <<t, U, est, last, amb>>
           /\ Report(IF amb THEN {} ELSE IF "err" \in DOMAIN ev THEN {"raised:" \o ev.err}
                     ELSE TLCEval(QueryFails(s, ev)), sc, l)
   /\ (l = Len(s.events) /\ amb') => PrintT("@@AMB " \o ToJson([sc |-> sc]))
   /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
