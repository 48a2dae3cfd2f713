----------------------------- MODULE StreamImpl -----------------------------
(***************************************************************************)
(* The mechanism by which precise/base.py implements Stream for one        *)
(* object: a state accumulator, the pending level, caller-owned buffers    *)
(* that can be overwritten after the call, and saved states.  Accumulators *)
(* are sequences (the history itself); heap cells model what is shared.    *)
(*   Refines : the mechanism agrees with Stream at every point.            *)
(* Each switch is one way of getting the mechanism wrong (four of them are *)
(* defects this code base had): with it on, Refines must fail.             *)
(***************************************************************************)
EXTENDS Stream

CONSTANTS Depth,
          AliasPrev,      \* the pending level is a view of the caller's buffer
          DropPrev,       \* saving leaves the pending level out
          KeepPrev,       \* fit does not forget the pending level
          EagerReset,     \* fit resets before it validates its argument
          PartWay,        \* widths are checked row by row while absorbing
          AliasSnap,      \* saving shares the accumulator cell
          SkipSame        \* a level equal to the pending one is skipped

Ids == {201, 202, 301}    \* two rows of width 2, one of width 3
Garbage == 299
Batches == {<<>>} \cup {<<i>> : i \in Ids} \cup {<<i, j>> : i, j \in Ids}

VARIABLES heap,       \* cell -> accumulated history (cell 0: none)
          cell,       \* the object's cell
          free,       \* next unused cell
          prev,       \* pending level: [ref |-> BOOLEAN, v |-> id], v = 0 none
          buf,        \* contents of the buffer last passed in
          snap,       \* saved state: [has, cell, hist, prev]
          abs, asnap, \* the same in Stream
          n           \* calls so far
vars == <<heap, cell, free, prev, buf, snap, abs, asnap, n>>

NoPrev == [ref |-> FALSE, v |-> 0]
Level(p) == IF p.ref THEN buf ELSE p.v

Init == /\ heap = [c \in 1..(Depth + 2) |-> <<>>] /\ cell = 1 /\ free = 2
        /\ prev = NoPrev /\ buf = 0 /\ n = 0
        /\ snap = [has |-> FALSE, cell |-> 0, hist |-> <<>>, prev |-> 0]
        /\ abs \in {Fresh(TRUE), Fresh(FALSE)} /\ asnap = abs

\* absorb rows one after the other, on [h, p] (history and pending level)
Take(s, id) ==
   IF ~abs.diff THEN [s EXCEPT !.h = Append(@, [a |-> 0, b |-> id])]
   ELSE IF s.p = 0 THEN [s EXCEPT !.p = id]
   ELSE IF SkipSame /\ s.p = id THEN s
   ELSE [h |-> Append(s.h, [a |-> s.p, b |-> id]), p |-> id]
WidthOf(s) == IF s.h # <<>> THEN Width(s.h[Len(s.h)].b) ELSE IF s.p # 0 THEN Width(s.p) ELSE 0
Uniform(b) == \A i \in 1..Len(b) : Width(b[i]) = Width(b[1])
Fits(s, b) == \A i \in 1..Len(b) : WidthOf(s) = 0 \/ Width(b[i]) = WidthOf(s)
GoodPrefix(s, b) ==        \* rows before the first bad one
   LET bad == {i \in 1..Len(b) : Width(b[i]) # (IF WidthOf(s) = 0 THEN Width(b[1]) ELSE WidthOf(s))}
   IN IF bad = {} THEN b ELSE SubSeq(b, 1, (CHOOSE i \in bad : \A j \in bad : i <= j) - 1)

Now == [h |-> heap[cell], p |-> Level(prev)]
Store(s, b) ==
   /\ heap' = [heap EXCEPT ![cell] = s.h]
   /\ buf' = IF b = <<>> THEN buf ELSE b[Len(b)]
   /\ prev' = IF s.p = 0 THEN NoPrev
              ELSE IF b = <<>> THEN [ref |-> FALSE, v |-> s.p]
              ELSE [ref |-> AliasPrev, v |-> s.p]
   /\ UNCHANGED <<cell, free, snap>>
Same == UNCHANGED <<heap, cell, free, prev, buf, snap>>

PartialFit(b) ==
   /\ asnap' = asnap
   /\ IF Uniform(b) /\ Fits(Now, b)
      THEN Store(FoldLeft(Take, Now, b), b) /\ abs' = Feed(abs, b)
      ELSE /\ abs' = abs
           /\ IF PartWay THEN Store(FoldLeft(Take, Now, GoodPrefix(Now, b)), GoodPrefix(Now, b)) ELSE Same
Empty == [h |-> <<>>, p |-> IF KeepPrev THEN Level(prev) ELSE 0]
Fit(b) ==
   /\ asnap' = asnap
   /\ IF Uniform(b)
      THEN Store(FoldLeft(Take, Empty, b), b) /\ abs' = Refit(abs, b)
      ELSE abs' = abs /\ (IF EagerReset THEN Store([h |-> <<>>, p |-> 0], <<>>) ELSE Same)
Save == /\ snap' = [has |-> TRUE, cell |-> cell, hist |-> heap[cell], prev |-> IF DropPrev THEN 0 ELSE Level(prev)]
        /\ asnap' = abs
        /\ UNCHANGED <<heap, cell, free, prev, buf, abs>>
Load == /\ snap.has
        /\ heap' = [heap EXCEPT ![free] = IF AliasSnap THEN heap[snap.cell] ELSE snap.hist]
        /\ cell' = free /\ free' = free + 1
        /\ prev' = [ref |-> FALSE, v |-> snap.prev]
        /\ abs' = asnap
        /\ UNCHANGED <<buf, snap, asnap>>
Overwrite == /\ buf # 0 /\ buf' = Garbage
             /\ UNCHANGED <<heap, cell, free, prev, snap, abs, asnap>>

Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E b \in Batches : PartialFit(b) \/ Fit(b)
           \/ Save \/ Load \/ Overwrite
Spec == Init /\ [][Next]_vars

\* an empty two-dimensional batch carries no width, and a history determines its width,
\* so agreement of history and pending level is agreement on everything Stream tracks
Refines == heap[cell] = abs.hist /\ Level(prev) = abs.pend
=============================================================================
