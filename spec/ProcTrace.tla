----------------------------- MODULE ProcTrace -----------------------------
(* Recorded histories of real processes judged by Processes.  The reference answers were recorded each in a process of its own
   that did nothing else. *)
EXTENDS Processes, HPLinAlg, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
Ref == JsonDeserialize(IOEnv.REF)
VARIABLES sc, l, proc
vars == <<sc, l, proc>>
View == <<sc, l>>
Set(s) == {s[i] : i \in 1..Len(s)}
Env(e) == [blocked |-> Set(e.blocked), hash |-> e.hash, rng |-> e.rng, opt |-> e.opt, dir |-> e.dir]
Ev(e) == IF e.op = "start" THEN [op |-> "start", env |-> Env(e.env)] ELSE e
Init == sc \in 1..Len(Scen) /\ l = 1 /\ proc = Started([blocked |-> {}, hash |-> 0, rng |-> 0, opt |-> 0, dir |-> 0])
Same(v, w) == IF Len(v) # Len(w) THEN FALSE
              ELSE \A i \in 1..Len(v) : IF RIsFinite(v[i]) /\ RIsFinite(w[i]) THEN NearR(v[i], w[i], RMul("1e-9", RAdd(RAbs(w[i]), "1e-9")))
                                        ELSE v[i] = w[i]
Agrees(f, val, names) == IF f \notin DOMAIN Ref THEN {}
   ELSE (IF Same(val, Ref[f].val) THEN {} ELSE {"answer_depends_on_the_process"})
        \cup (IF names = Ref[f].names THEN {} ELSE {"names_or_order_depend_on_the_process"})
Answers(e) ==
   IF e.outcome # "ok" THEN {}
   ELSE CASE e.op = "together" -> Agrees(e.f, e.val, e.names) \cup Agrees(e.g, e.val2, e.names2)
          [] e.op \in {"use", "go"} -> Agrees(Answer(e), e.val, e.names)
          [] OTHER -> {}
Fails(e) ==
   LET q == Do(proc, e)  may == q.tried  brought == Set(e.loaded) IN
   (IF e.outcome = Wanted(proc, e) THEN {} ELSE {e.op \o "_" \o e.outcome})
   \cup (IF brought \subseteq may THEN {} ELSE {"loaded_" \o x : x \in brought \ may})
   \cup {"changed_" \o x : x \in (IF brought # {} /\ may # {} THEN {}            \* what pandas does on loading is its own affair
                                    ELSE IF e.op = "together" THEN Set(e.changed) \ {"warning_filters", "showwarning"}    \* suppressing warnings is not thread safe
                                    ELSE Set(e.changed))}
   \cup (IF e.printed THEN {"printed"} ELSE {})
   \cup Answers(e)
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == /\ l <= Len(Scen[sc].acts)
        /\ LET e == Ev(Scen[sc].acts[l]) IN
           /\ IF e.op = "start" THEN TRUE ELSE Report(TLCEval(Fails(e)), sc, l)
           /\ proc' = Do(proc, e)
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
