------------------------------ MODULE MemTrace ------------------------------
(***************************************************************************)
(* Sizes recorded along long streams.  A scenario is one estimator or      *)
(* adapter; step l reports, after `n` observations, the scalars in the     *)
(* saved state, the size of the pickle and of everything reachable from    *)
(* the object, and (adapters) the name sets held.                          *)
(***************************************************************************)
EXTENDS Memory, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, high     \* high: the largest sizes seen by the time the stream is `settled`
vars == <<sc, l, high>>
View == <<sc, l>>
Zero == [scalars |-> 0, pickle |-> 0, reach |-> 0]
Init == sc \in 1..Len(Scen) /\ l = 1 /\ high = Zero
Keys == {"scalars", "pickle", "reach"}
Max2(a, b) == IF a < b THEN b ELSE a
Fails(s, o, h) ==
   IF "err" \in DOMAIN o THEN {"raised:" \o o.err}
   ELSE (IF "scalars" \in DOMAIN o /\ s.what = "estimator" /\ o.scalars > Bound(s.cls, s.prm, s.p) THEN {"state_larger_than_allowed"} ELSE {})
        \cup (IF "universes" \in DOMAIN o /\ o.universes > s.max THEN {"more_name_sets_than_allowed"} ELSE {})
        \cup {"state_grows:" \o k : k \in {k \in Keys : o.n > s.settled /\ k \in DOMAIN o /\ 100 * o[k] > 102 * h[k] + 100 * s.slack}}
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == LET s == Scen[sc]  o == s.obs[l] IN
   /\ l <= Len(s.obs)
   /\ high' = IF "err" \in DOMAIN o \/ o.n > s.settled THEN high
              ELSE [k \in Keys |-> IF k \in DOMAIN o THEN Max2(high[k], o[k]) ELSE high[k]]
   /\ l' = l + 1 /\ sc' = sc
   /\ Report(TLCEval(Fails(s, o, high)), sc, l)
Spec == Init /\ [][Next]_vars
=============================================================================
