------------------------------ MODULE StreamGen ------------------------------
(***************************************************************************)
(* Behaviours of Stream, generated: NObj objects of one class, NSnap saved *)
(* copies, the operations named in Ops.  TLC enumerates the behaviours (or *)
(* simulates them) and prints each one as the list of calls to make; the   *)
(* conformance harness makes those calls on the real code.                 *)
(***************************************************************************)
EXTENDS Stream, Json

CONSTANTS NObj, NSnap, Ops, Widths, Sizes, Depth, Diff, MaxPos, More

VARIABLES obj, snap, pos, log, out, inb, done
vars == <<obj, snap, pos, log, out, inb, done>>
NoSnap == [kind |-> "none"]

Init == /\ obj = [o \in 1..NObj |-> Fresh(Diff)]
        /\ snap = [k \in 1..NSnap |-> NoSnap]
        /\ pos = [o \in 1..NObj |-> 0]
        /\ log = <<>> /\ done = FALSE
        /\ out = [o \in 1..NObj |-> FALSE]      \* a returned array is at hand to scribble on
        /\ inb = [o \in 1..NObj |-> FALSE]      \* an input buffer is at hand to scribble on

Ids(w, from, m) == [i \in 1..m |-> 100 * w + from + i]
WidthsFor(o) == IF obj[o].wid = 0 THEN Widths ELSE {obj[o].wid}
Log(r) == log' = Append(log, r)

One(o, w) == /\ "one" \in Ops /\ pos[o] < MaxPos
             /\ LET ids == Ids(w, pos[o], 1) IN
                /\ obj' = [obj EXCEPT ![o] = Feed(@, ids)]
                /\ Log([op |-> "one", o |-> o, ids |-> ids])
             /\ pos' = [pos EXCEPT ![o] = @ + 1]
             /\ inb' = [inb EXCEPT ![o] = TRUE]
             /\ UNCHANGED <<snap, out>>

Batch(o, w, m) == /\ "batch" \in Ops /\ pos[o] + m <= MaxPos
                  /\ LET ids == Ids(w, pos[o], m) IN
                     /\ obj' = [obj EXCEPT ![o] = Feed(@, ids)]
                     /\ Log([op |-> "batch", o |-> o, ids |-> ids, w |-> w])
                  /\ pos' = [pos EXCEPT ![o] = @ + m]
                  /\ inb' = [inb EXCEPT ![o] = m > 0]
                  /\ UNCHANGED <<snap, out>>

Fit(o, w, m, from) == /\ "fit" \in Ops /\ from + m <= MaxPos
                      /\ LET ids == Ids(w, from, m) IN
                         /\ obj' = [obj EXCEPT ![o] = Refit(@, ids)]
                         /\ Log([op |-> "fit", o |-> o, ids |-> ids, w |-> w])
                      /\ pos' = [pos EXCEPT ![o] = from + m]
                      /\ inb' = [inb EXCEPT ![o] = m > 0]
                      /\ UNCHANGED <<snap, out>>

Save(o, k, kind) == /\ ("save" \o kind) \in Ops
                    /\ snap' = [snap EXCEPT ![k] = [kind |-> kind, s |-> obj[o], pos |-> pos[o]]]
                    /\ Log([op |-> "save", o |-> o, k |-> k, kind |-> kind])
                    /\ UNCHANGED <<obj, pos, out, inb>>

Load(o, k) == /\ snap[k].kind # "none"
              /\ obj' = [obj EXCEPT ![o] = snap[k].s]
              /\ pos' = [pos EXCEPT ![o] = snap[k].pos]
              /\ Log([op |-> "load", o |-> o, k |-> k, kind |-> snap[k].kind])
              /\ inb' = [inb EXCEPT ![o] = FALSE]
              /\ out' = [out EXCEPT ![o] = FALSE]
              /\ UNCHANGED snap

\* overwrite a saved state dictionary (which is then useless): nothing else changes
ScribbleSnap(k) == /\ "scribble" \in Ops /\ snap[k].kind = "dict"
                   /\ snap' = [snap EXCEPT ![k] = NoSnap]
                   /\ Log([op |-> "scribsnap", k |-> k])
                   /\ UNCHANGED <<obj, pos, out, inb>>
ScribbleOut(o) == /\ "scribble" \in Ops /\ out[o]
                  /\ Log([op |-> "scribout", o |-> o])
                  /\ out' = [out EXCEPT ![o] = FALSE]
                  /\ UNCHANGED <<obj, snap, pos, inb>>
ScribbleIn(o) == /\ "scribble" \in Ops /\ inb[o]
                 /\ Log([op |-> "scribin", o |-> o])
                 /\ inb' = [inb EXCEPT ![o] = FALSE]
                 /\ UNCHANGED <<obj, snap, pos, out>>

Copy(o, q) == /\ "copy" \in Ops /\ o # q
              /\ obj' = [obj EXCEPT ![q] = obj[o]]
              /\ pos' = [pos EXCEPT ![q] = pos[o]]
              /\ Log([op |-> "copy", o |-> o, q |-> q])
              /\ inb' = [inb EXCEPT ![q] = FALSE]
              /\ out' = [out EXCEPT ![q] = FALSE]
              /\ UNCHANGED snap

Read(o) == /\ "read" \in Ops
           /\ Log([op |-> "read", o |-> o, hist |-> obj[o].hist])
           /\ out' = [out EXCEPT ![o] = Readable(obj[o])]
           /\ UNCHANGED <<obj, snap, pos, inb>>

BadKinds == {"scalar", "cube", "ragged", "fit1d", "fitcube", "fitragged"}
            \cup {"wide", "narrow", "widebatch", "mixedbatch", "widelist"}
Bad(o, kind) == /\ "bad" \in Ops
                /\ kind \in {"wide", "narrow", "widebatch", "mixedbatch", "widelist"} => obj[o].wid > 1
                /\ Log([op |-> "bad", o |-> o, kind |-> kind, w |-> obj[o].wid])
                /\ UNCHANGED <<obj, snap, pos, out, inb>>

Step ==
   /\ Len(log) < Depth /\ done' = done
   /\ \E o \in 1..NObj :
        \/ \E w \in WidthsFor(o) : One(o, w)
        \/ \E w \in WidthsFor(o), m \in Sizes : Batch(o, w, m)
        \/ \E w \in Widths, m \in Sizes, from \in {0, 3} : Fit(o, w, m, from)
        \/ \E k \in 1..NSnap, kind \in {"json", "dict", "pickle"} : Save(o, k, kind)
        \/ \E k \in 1..NSnap : Load(o, k)
        \/ \E k \in 1..NSnap : ScribbleSnap(k)
        \/ ScribbleOut(o) \/ ScribbleIn(o)
        \/ \E q \in 1..NObj : Copy(o, q)
        \/ Read(o)
        \/ \E kind \in BadKinds : Bad(o, kind)

\* a last step of its own, so that a simulated behaviour is printed once
Finish == Len(log) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<obj, snap, pos, log, out, inb>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- what must hold of the contract itself ---- *)
\* differences chain: each observation starts where the previous one ended
Chained == \A o \in 1..NObj : LET s == obj[o] IN
   /\ s.diff => /\ (s.hist # <<>> => s.pend = s.hist[Len(s.hist)].b)
                /\ \A i \in 1..(Len(s.hist) - 1) : s.hist[i].b = s.hist[i + 1].a
                /\ (s.pend = 0 => s.hist = <<>>)
   /\ ~s.diff => s.pend = 0 /\ \A i \in 1..Len(s.hist) : s.hist[i].a = 0
   /\ \A i \in 1..Len(s.hist) : Width(s.hist[i].b) = s.wid
\* only feeding, fitting, loading and copying change an object, and only the one addressed
OnlyTarget == [][\A o \in 1..NObj : obj'[o] # obj[o] =>
                   LET r == log'[Len(log')] IN
                   \/ r.op \in {"one", "batch", "fit", "load"} /\ r.o = o
                   \/ r.op = "copy" /\ r.q = o]_vars
\* a saved copy never changes except by being saved over or scribbled on
SnapStable == [][\A k \in 1..NSnap : snap'[k] # snap[k] =>
                   LET r == log'[Len(log')] IN r.op \in {"save", "scribsnap"} /\ r.k = k]_vars

\* every behaviour ends by reading all objects, continuing each of them with common rows and
\* reading all of them again, so that a difference left behind by the last call is seen
ContIds(o) == Ids(IF obj[o].wid = 0 THEN CHOOSE w \in Widths : TRUE ELSE obj[o].wid, pos[o], More)
Reads(ob) == [o \in 1..NObj |-> [op |-> "read", o |-> o, hist |-> ob[o].hist]]
Conts == FlattenSeq([o \in 1..NObj |-> [i \in 1..More |-> [op |-> "one", o |-> o, ids |-> <<ContIds(o)[i]>>]]])
Full == log \o Reads(obj) \o Conts \o Reads([o \in 1..NObj |-> Feed(obj[o], ContIds(o))])
Emit == done => PrintT("@@BEH " \o ToJson(Full))
=============================================================================
