------------------------------- MODULE WebTex -------------------------------
(***************************************************************************)
(* Equation numbers of a paper's web edition.  A document is a sequence of *)
(* pieces [k, s]: k = "begin" / "end" of a numbered equation, "label" /    *)
(* "ref" with s the key, or "text" with s any other text.                  *)
(*                                                                         *)
(* Two passes over the pieces.  The first reads: an equation opens at a    *)
(* begin for which an end follows, closes at the next end, and takes the   *)
(* next number; labels of equations inside it get that number (the last    *)
(* one counts, as in LaTeX).  The second writes: a numbered equation       *)
(* becomes display math, its labels tags with the number, references the   *)
(* number in parentheses, everything else stays.  A reference to a key     *)
(* without a number stops it, and nothing is written.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
EndsLater(d, i) == \E j \in (i + 1)..Len(d) : d[j].k = "end"
\* one step of the reader at piece i;  r = [n, open, role : per piece, num : key -> number]
Fresh(d) == [n |-> 0, open |-> FALSE, role |-> [i \in 1..Len(d) |-> "plain"], num |-> [k \in {d[i].s : i \in {j \in 1..Len(d) : d[j].k \in {"label", "ref"}}} |-> 0]]
Read(d, i, r) ==
   CASE d[i].k = "begin" /\ ~r.open /\ EndsLater(d, i) -> [r EXCEPT !.open = TRUE, !.n = @ + 1, !.role[i] = "opens"]
     [] d[i].k = "end" /\ r.open -> [r EXCEPT !.open = FALSE, !.role[i] = "closes"]
     [] d[i].k = "label" /\ r.open -> [r EXCEPT !.role[i] = "tag", !.num[d[i].s] = r.n]
     [] OTHER -> r
RECURSIVE ReadAll(_, _, _)
ReadAll(d, i, r) == IF i > Len(d) THEN r ELSE ReadAll(d, i + 1, Read(d, i, r))

Source(p) == CASE p.k = "begin" -> "\\begin{equation}" [] p.k = "end" -> "\\end{equation}"
               [] p.k = "label" -> "\\label{" \o p.s \o "}" [] p.k = "ref" -> "\\eqref{" \o p.s \o "}" [] OTHER -> p.s
Dangling(d, r) == {d[i].s : i \in {j \in 1..Len(d) : d[j].k = "ref" /\ r.num[d[j].s] = 0}}
\* the number a tag shows: how many equations have opened up to there
Opened(d, r, i) == Cardinality({j \in 1..i : r.role[j] = "opens"})
Piece(d, r, i) ==
   CASE r.role[i] = "opens" -> "\\[" [] r.role[i] = "closes" -> "\\]"
     [] r.role[i] = "tag" -> "\\tag{" \o ToString(Opened(d, r, i)) \o "}"
     [] d[i].k = "ref" -> "(" \o ToString(r.num[d[i].s]) \o ")"
     [] OTHER -> Source(d[i])
Text(d) == FoldLeft(LAMBDA acc, p : acc \o Source(p), "", d)
RECURSIVE Written(_, _, _)
Written(d, r, i) == IF i > Len(d) THEN "" ELSE Piece(d, r, i) \o Written(d, r, i + 1)
Tags(d, r) == LET S == SelectSeq([i \in 1..Len(d) |-> IF r.role[i] = "tag" THEN Opened(d, r, i) ELSE 0], LAMBDA x : x > 0) IN S
=============================================================================
