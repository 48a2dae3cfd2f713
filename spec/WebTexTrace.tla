---------------------------- MODULE WebTexTrace ----------------------------
(* Recorded conversions of documents, and the pages that were built from the papers. *)
EXTENDS WebTex, Json, IOUtils
Scen == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>
View == vars
Init == sc \in 1..Len(Scen) /\ l = 1
Judge(t, r) ==
   IF Dangling(t.doc, r) # {}
   THEN (IF t.stopped THEN {} ELSE {"dangling_reference_accepted"})
        \cup (IF ~t.wrote THEN {} ELSE {"written_in_spite_of_a_dangling_reference"})
        \cup (IF ~t.stopped \/ \E k \in Dangling(t.doc, r) : \E m \in 1..Len(t.named) : t.named[m] = k THEN {} ELSE {"dangling_reference_not_named"})
   ELSE IF t.stopped \/ ~t.wrote THEN {"stopped_without_reason"}
   ELSE IF t.out = Written(t.doc, r, 1) THEN {} ELSE {"converted_text"}
PageFails(t, r) ==        \* [doc, tags, left]
   (IF t.tags = Tags(t.doc, r) THEN {} ELSE {"numbers_of_the_page"})
   \cup (IF t.left = 0 THEN {} ELSE {"unresolved_on_the_page"})
   \cup (IF Dangling(t.doc, r) = {} THEN {} ELSE {"paper_with_a_dangling_reference"})
Fails(t) ==
   IF "err" \in DOMAIN t THEN {t.kind \o "_raised:" \o t.err}
   ELSE LET r == TLCEval(ReadAll(t.doc, 1, Fresh(t.doc))) IN IF t.kind = "page" THEN PageFails(t, r) ELSE Judge(t, r)
Report(f, k, i) == IF f = {} THEN TRUE ELSE PrintT("@@FAIL " \o ToJson([sc |-> k, l |-> i, fails |-> f]))
Next == /\ l <= Len(Scen[sc].calls)
        /\ Report(TLCEval(Fails(Scen[sc].calls[l])), sc, l)
        /\ l' = l + 1 /\ sc' = sc
Spec == Init /\ [][Next]_vars
=============================================================================
