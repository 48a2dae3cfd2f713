----------------------------- MODULE ParamTrace -----------------------------
(***************************************************************************)
(* Trace validation of recorded calls against Params, and of the recorded  *)
(* contents of the registry.                                               *)
(* A scenario has the class name, its parameters (name, slot, the three    *)
(* values as text) and the events.  After every event the parameters of    *)
(* every object are recorded; "read" and "ref" events carry readings.      *)
(***************************************************************************)
EXTENDS Params, Agree, Json, IOUtils, SequencesExt
CONSTANT Registry
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, obj, memo
vars == <<sc, l, obj, memo>>
View == <<sc, l>>
Ev(k) == Scen[k].events
Fn(q) == [s \in Slots |-> q[s]]
Init == /\ sc \in 1..Len(Scen) /\ l = 1 /\ memo = <<>>
        /\ obj = [o \in 1..Scen[sc].nobj |-> New([s \in Slots |-> 0])]

Apply(e) ==
   CASE e.op = "new"   -> [obj EXCEPT ![e.o] = New(Fn(e.prm))]
     [] e.op = "set"   -> [obj EXCEPT ![e.o] = SetTo(@, Fn(e.prm))]
     [] e.op = "learn" -> [obj EXCEPT ![e.o] = Learn(@, e.ids)]
     [] e.op = "fit"   -> [obj EXCEPT ![e.o] = Fit(@, e.ids)]
     [] e.op = "clone" -> [obj EXCEPT ![e.q] = Clone(obj[e.o])]
     [] e.op = "copy"  -> [obj EXCEPT ![e.q] = obj[e.o]]
     [] OTHER -> obj

\* the text of every parameter of an object with these values
Expected(k, p) == [i \in 1..Len(Scen[k].params) |->
    <<Scen[k].params[i].name, IF Scen[k].params[i].slot = 0 THEN Scen[k].params[i].vals[1]
                              ELSE Scen[k].params[i].vals[p[Scen[k].params[i].slot] + 1]>>]
ParamFails(k, got, s) ==
   LET want == Expected(k, s.prm) IN
   (IF {want[i][1] : i \in 1..Len(want)} = {got[i][1] : i \in 1..Len(got)} /\ Len(got) = Len(want) THEN {} ELSE {"parameter_names"})
   \cup (IF {<<want[i][1], want[i][2]>> : i \in 1..Len(want)} = {<<got[i][1], got[i][2]>> : i \in 1..Len(got)}
         THEN {} ELSE {"parameter_values"})
ReprFails(k, e, s) ==
   (IF e.cls = Scen[k].cls THEN {} ELSE {"printed_class_name"})
   \cup (IF {e.shown[i][1] : i \in 1..Len(e.shown)} = {Scen[k].params[i].name : i \in 1..Len(Scen[k].params)}
         THEN {} ELSE {"printed_parameter_names"})
   \cup (IF ~e.values THEN {}
         ELSE IF ParamFails(k, e.shown, s) = {} THEN {} ELSE {"printed_parameter_values"})

Key(s) == <<s.prm, s.hist>>
Readable(e) == "obs" \in DOMAIN e
ReadFails(e, key, clean) ==
   IF ~clean THEN {}
   ELSE IF "err" \in DOMAIN e THEN {e.op \o "_raised:" \o e.err}
   ELSE IF key[2] = <<>> THEN IF "n" \in DOMAIN e /\ e.n = 0 /\ e.unfitted THEN {} ELSE {"fresh_object_is_not_unfitted"}
   ELSE IF Readable(e) /\ ~WellFormed(e.obs, Scen[sc].p) THEN {"malformed_reading"}
   ELSE LET same == SelectSeq(memo, LAMBDA m : m.key = key) IN
        IF same = <<>> THEN {}
        ELSE IF Readable(e) # Readable(same[1].e) THEN {"unfitted_where_the_other_is_not"}
        ELSE IF Readable(e) THEN Differ(e.obs, same[1].e.obs, Scen[sc].p) ELSE {}

RegistryFails(e) ==
   (IF e.names = Registry THEN {} ELSE {"registry_order"})
   \cup (IF e.classes = Registry THEN {} ELSE {"class_names"})
   \cup (IF \A i \in 1..Len(e.lookup) : e.lookup[i] THEN {} ELSE {"lookup_is_not_the_inverse"})
   \cup (IF \A i \in 1..Len(e.unknown) : e.unknown[i] = "KeyError" THEN {} ELSE {"unknown_name_did_not_raise_KeyError"})
   \cup (IF e.after = Registry THEN {} ELSE {"editing_the_list_changed_the_registry"})
   \cup (IF e.distinct THEN {} ELSE {"a_class_occurs_twice"})
   \cup (IF e.subclasses THEN {} ELSE {"not_an_estimator_class"})

Fails(e, ob) ==
   IF e.op = "registry" THEN IF "err" \in DOMAIN e THEN {"registry_raised:" \o e.err} ELSE RegistryFails(e)
   ELSE IF e.op = "ref" THEN ReadFails(e, <<Fn(e.prm), e.hist>>, TRUE)
   ELSE IF e.op = "read" THEN
        (IF "err" \in DOMAIN e THEN {} ELSE {}) \cup ReadFails(e, Key(ob[e.o]), ob[e.o].clean)
   ELSE IF e.op = "repr" THEN IF "err" \in DOMAIN e THEN {"repr_raised:" \o e.err} ELSE ReprFails(sc, e, ob[e.o])
   ELSE IF "err" \in DOMAIN e THEN (IF ob[e.o].clean THEN {e.op \o "_raised:" \o e.err} ELSE {})
   ELSE UNION {ParamFails(sc, e.all[o], ob[o]) : o \in 1..Len(ob)}
        \cup (IF "self" \in DOMAIN e /\ ~e.self THEN {e.op \o "_did_not_return_the_estimator"} ELSE {})

Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Known(key) == \E i \in 1..Len(memo) : memo[i].key = key
Next == /\ l <= Len(Ev(sc))
        /\ LET e == Ev(sc)[l]  after == TLCEval(Apply(e)) IN
           /\ obj' = after
           /\ Report(TLCEval(Fails(e, after)), sc, l)
           /\ LET key == IF e.op = "ref" THEN <<Fn(e.prm), e.hist>> ELSE IF e.op = "read" THEN Key(after[e.o]) ELSE <<>>
                  good == e.op \in {"ref", "read"} /\ "err" \notin DOMAIN e
                          /\ (e.op = "ref" \/ after[e.o].clean) /\ (~Readable(e) \/ WellFormed(e.obs, Scen[sc].p)) IN
              memo' = IF good /\ ~Known(key) THEN Append(memo, [key |-> key, e |-> e]) ELSE memo
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
