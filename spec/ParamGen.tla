------------------------------ MODULE ParamGen ------------------------------
(***************************************************************************)
(* Behaviours of a pair of objects under construction, set_params, clone,  *)
(* copy, learning and fitting.                                             *)
(***************************************************************************)
EXTENDS Params, Json
CONSTANTS Depth, NObj, Batches     \* Batches: the row sequences a step may feed or fit
VARIABLES obj, log, done
vars == <<obj, log, done>>
Objs == 1..NObj
Zero == [s \in Slots |-> 0]
Init == obj = [o \in Objs |-> New(Zero)] /\ log = <<>> /\ done = FALSE
Do(e) == log' = Append(log, e)
P(p) == <<p[1], p[2]>>
Construct(o) == \E p \in Assignments : /\ obj' = [obj EXCEPT ![o] = New(p)] /\ Do([op |-> "new", o |-> o, prm |-> P(p)])
Set(o) == \E p \in Assignments : /\ obj' = [obj EXCEPT ![o] = SetTo(@, p)]
                                 /\ Do([op |-> "set", o |-> o, prm |-> P(p)])
Feeding(o) == \E b \in Batches : obj' = [obj EXCEPT ![o] = Learn(@, b)] /\ Do([op |-> "learn", o |-> o, ids |-> b])
Fitting(o) == \E b \in Batches : obj' = [obj EXCEPT ![o] = Fit(@, b)] /\ Do([op |-> "fit", o |-> o, ids |-> b])
Cloning(o) == \E q \in Objs : /\ (NObj = 1 \/ q # o)
                              /\ obj' = [obj EXCEPT ![q] = Clone(obj[o])] /\ Do([op |-> "clone", o |-> o, q |-> q])
Copying(o) == \E q \in Objs : q # o /\ obj' = [obj EXCEPT ![q] = obj[o]] /\ Do([op |-> "copy", o |-> o, q |-> q])
Step == /\ Len(log) < Depth /\ done' = done
        /\ \E o \in Objs : Construct(o) \/ Set(o) \/ Feeding(o) \/ Fitting(o) \/ Cloning(o) \/ Copying(o)
Finish == Len(log) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<obj, log>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* learning never changes parameters, fitting always leaves an object whose readings are determined
Frame == [][\A o \in Objs :
   LET e == log'[Len(log')] IN
   Len(log') > Len(log) =>
     /\ e.op \in {"learn", "fit"} => obj'[o].prm = obj[o].prm
     /\ (e.op = "fit" /\ e.o = o) => obj'[o].clean /\ obj'[o].hist = e.ids
     /\ (e.op = "clone" /\ e.q = o) => obj'[o] = New(obj[e.o].prm)]_vars
\* setting parameters before fitting is constructing with them
SetThenFit == \A o \in Objs : \A p \in Assignments : \A b \in Batches : Fit(SetTo(obj[o], p), b) = Learn(New(p), b)
Emit == done => PrintT("@@BEH " \o ToJson(log))
=============================================================================
