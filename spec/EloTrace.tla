------------------------------ MODULE EloTrace ------------------------------
(***************************************************************************)
(* Recorded rating changes, replays of small collections of results (the   *)
(* table must be reachable by some order of replay), of large ones (the    *)
(* laws), frequencies of the tables over many replays, and whole reports.  *)
(***************************************************************************)
EXTENDS Elo, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>
View == vars
Init == sc \in 1..Len(Scen) /\ l = 1
Bag(w) == [b \in {<<w[i][1], w[i][2]>> : i \in 1..Len(w)} |->
             LET S == {i \in 1..Len(w) : <<w[i][1], w[i][2]>> = b} IN SumOver([i \in S |-> w[i][3]], S)]
Finite(t, n) == Len(t) = n /\ IsFiniteV(t)
TableFails(t) ==          \* [n, wins, k, limit, table]
   IF ~Finite(t.table, t.n) THEN {"ratings_missing_or_not_finite"}
   ELSE LET bag == TLCEval(Bag(t.wins)) IN
        (IF Conserved(t.table, t.n) THEN {} ELSE {"ratings_not_conserved"})
        \cup (IF WithinReach(t.table, bag, t.k) THEN {} ELSE {"rating_moved_further_than_its_games_allow"})
        \cup (IF Deserved(t.table, bag) THEN {} ELSE {"rating_not_on_the_side_of_the_results"})
        \cup (IF Total(bag) > t.search THEN {}
              ELSE IF Reaches(Fresh(t.n), bag, IF t.limit > 0 THEN t.limit ELSE Total(bag), t.k, t.table) THEN {}
              ELSE {"not_the_table_of_any_replay"})
ChangeFails(t) ==
   LET c == TLCEval(Change(t.a, t.b, t.points, t.k, t.f)) IN
   IF ~IsFiniteV(<<t.up, t.down>>) THEN {"change_not_finite"}
   ELSE (IF NearR(t.up, c, RMul("1e-9", RAdd(1, RAbs(t.k)))) THEN {} ELSE {"rating_change"})
        \cup (IF NearR(RAdd(t.up, t.down), 0, RMul("1e-12", RAdd(1, RAbs(t.k)))) THEN {} ELSE {"not_zero_sum"})
ExpectFails(t) == IF RIsFinite(t.e) /\ NearR(t.e, Expected(t.d, t.f), "1e-9") THEN {} ELSE {"expected_points"}
FreqFails(t) ==           \* [n, wins, k, tables : seq of [table, count], runs]
   LET bag == TLCEval(Bag(t.wins))
       \* within seven standard deviations (and a few counts) of the binomial
       ok(o) == LET p == TLCEval(Chance(Fresh(t.n), bag, t.k, o.table)) IN
                RLeq(RAbs(RSub(o.count, RMul(p, t.runs))), RAdd(4, RMul(7, RSqrt(RMul(t.runs, RMul(p, RSub(1, p)))))))
   IN IF \A i \in 1..Len(t.tables) : Finite(t.tables[i].table, t.n) /\ ok(t.tables[i]) THEN {} ELSE {"replay_order_not_uniform"}
ReportFails(t) ==
   \* a table in decreasing order of rating with the timing of each contestant ("none" if unknown)
   IF Len(t.rows) # t.n \/ {t.rows[i].who : i \in 1..Len(t.rows)} # 1..t.n THEN {"contestants"}
   ELSE IF ~IsFiniteV([i \in 1..Len(t.rows) |-> t.rows[i].elo]) THEN {"ratings_missing_or_not_finite"}
   ELSE (IF t.sorted => \A i \in 1..(Len(t.rows) - 1) : RLeq(t.rows[i + 1].elo, t.rows[i].elo) THEN {} ELSE {"not_in_order_of_rating"})
        \cup (IF \A i \in 1..Len(t.rows) : LET w == t.rows[i] IN
                   IF t.times[w.who] = "none" THEN w.cpu = "none" ELSE w.cpu # "none" /\ NearR(w.cpu, t.times[w.who], t.cputol)
              THEN {} ELSE {"timing"})
Fails(t) ==
   IF "err" \in DOMAIN t THEN {t.kind \o "_raised:" \o t.err}
   ELSE CASE t.kind = "change" -> ChangeFails(t)
          [] t.kind = "expected" -> ExpectFails(t)
          [] t.kind = "table" -> TableFails(t)
          [] t.kind = "freq" -> FreqFails(t)
          [] t.kind = "report" -> ReportFails(t)
          [] t.kind = "categories" -> IF {t.got[i] : i \in 1..Len(t.got)} = {t.want[i] : i \in 1..Len(t.want)} THEN {} ELSE {"categories"}
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == /\ l <= Len(Scen[sc].calls)
        /\ Report(TLCEval(Fails(Scen[sc].calls[l])), sc, l)
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
