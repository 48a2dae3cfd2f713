----------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Trace validation of recorded call sequences against Stream.  Objects    *)
(* evolve by Stream's operations; a reading taken for an object is         *)
(* compared with every earlier reading of the same run taken at the same   *)
(* history: of any object, including the reference readings ("ref" events) *)
(* the harness takes from fresh objects fed that history and nothing else. *)
(***************************************************************************)
EXTENDS Stream, Agree, Json, IOUtils

Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, obj, snap, memo, cmp
vars == <<sc, l, obj, snap, memo, cmp>>
View == <<sc, l>>
Ev(k) == Scen[k].events

Init == /\ sc \in 1..Len(Scen)
        /\ l = 1
        /\ obj = [o \in 1..Scen[sc].nobj |-> Fresh(Scen[sc].diffs[o])]
        /\ snap = [k \in 1..Scen[sc].nsnap |-> Fresh(FALSE)]
        /\ memo = <<>>            \* sequence of [hist, obs]
        /\ cmp = 0                \* readings compared with another one so far

ReadFails(s, e) ==
   IF ~Readable(s)
   THEN (IF "n" \in DOMAIN e /\ e.n = 0 THEN {} ELSE {"n_samples_when_unfitted"})
        \cup (IF "unfitted" \in DOMAIN e /\ e.unfitted THEN {} ELSE {"unfitted_read_did_not_raise_ValueError"})
   ELSE IF "err" \in DOMAIN e THEN {"read_raised:" \o e.err}
   ELSE IF "obs" \notin DOMAIN e THEN {"no_reading_although_rows_were_absorbed"}
   ELSE IF ~WellFormed(e.obs, s.wid) THEN {"malformed_reading"}
   ELSE (IF e.obs.n # NSamples(s) THEN {"n_samples"} ELSE {})
        \cup (LET same == SelectSeq(memo, LAMBDA m : m.hist = s.hist) IN
              IF same = <<>> THEN {} ELSE Differ(e.obs, same[1].obs, s.wid))

Fails(e) ==
   (IF e.op = "ref"
         THEN (IF "err" \in DOMAIN e THEN {"fresh_object_raised:" \o e.err}
               ELSE IF ~WellFormed(e.obs, Width(e.hist[1].b)) THEN {"fresh_object_malformed_reading"} ELSE {})
    ELSE IF e.op = "read" THEN ReadFails(obj[e.o], e)
    ELSE IF e.op = "bad"
         THEN (IF "err" \notin DOMAIN e THEN {"bad_input_accepted:" \o e.kind}
               ELSE IF e.err # "ValueError" THEN {"bad_input_raised:" \o e.kind \o ":" \o e.err} ELSE {})
    ELSE IF "err" \in DOMAIN e THEN {e.op \o "_raised:" \o e.err} ELSE {})
   \cup (IF "dirty" \in DOMAIN e /\ e.dirty THEN {"argument_modified"} ELSE {})

Apply(e) ==
   CASE e.op \in {"one", "batch"} -> /\ obj' = [obj EXCEPT ![e.o] = Feed(@, e.ids)] /\ UNCHANGED snap
     [] e.op = "fit"  -> obj' = [obj EXCEPT ![e.o] = Refit(@, e.ids)] /\ UNCHANGED snap
     [] e.op = "save" -> snap' = [snap EXCEPT ![e.k] = obj[e.o]] /\ UNCHANGED obj
     [] e.op = "load" -> obj' = [obj EXCEPT ![e.o] = snap[e.k]] /\ UNCHANGED snap
     [] e.op = "copy" -> obj' = [obj EXCEPT ![e.q] = obj[e.o]] /\ UNCHANGED snap
     [] e.op \in {"read", "ref", "bad", "scribin", "scribout", "scribsnap"} -> UNCHANGED <<obj, snap>>

Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))

Remember(e, ob) ==      \* the history a well formed reading stands for, <<>> if none
   IF "obs" \notin DOMAIN e THEN <<>>
   ELSE LET h == IF e.op = "ref" THEN e.hist ELSE ob[e.o].hist
        IN IF h # <<>> /\ WellFormed(e.obs, Width(h[1].b)) THEN h ELSE <<>>
Known(h) == \E i \in 1..Len(memo) : memo[i].hist = h

Next == /\ l <= Len(Ev(sc))
        /\ LET e == Ev(sc)[l]
               h == TLCEval(Remember(e, obj))
           IN
           /\ Apply(e)
           /\ Report(TLCEval(Fails(e)), sc, l)
           /\ memo' = IF h # <<>> /\ ~Known(h) THEN Append(memo, [hist |-> h, obs |-> e.obs]) ELSE memo
           /\ cmp' = IF h # <<>> /\ Known(h) THEN cmp + 1 ELSE cmp
           /\ IF l = Len(Ev(sc)) THEN PrintT("@@END " \o ToJson([sc |-> sc, cmp |-> cmp'])) ELSE TRUE
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
