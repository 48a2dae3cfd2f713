----------------------------- MODULE Processes -----------------------------
(***************************************************************************)
(* Processes that use the package, and objects that outlive them.          *)
(*                                                                         *)
(* A process runs in an environment: which optional packages are not       *)
(* installed, the hash seed, the state of the global random generators,    *)
(* whether assertions are compiled away, the working directory.  What a    *)
(* feature answers is a function of the feature alone; what a saved object *)
(* answers is a function of how far it has learnt.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Optional == {"pandas", "others"}           \* "others": every package that is neither the standard library, numpy, pandas nor ours
Envs == [blocked : SUBSET Optional, hash : 0..2, rng : 0..1, opt : 0..1, dir : 0..1]
\* a data frame needs pandas (which needs others); nothing else needs anything
Kind(f) == IF f \in {"frame:fixed", "frame:dynamic"} THEN "frame" ELSE "plain"
Needs(f) == IF Kind(f) = "frame" THEN Optional ELSE {}
Removed == {"precise.skaters", "precise.skaters.covariance", "precise.skaters.covariance.ewapm"}
Started(env) == [env |-> env, tried |-> {}]           \* tried: what the process may have loaded
Outcome(p, f) == IF Needs(f) \cap p.env.blocked = {} THEN "ok" ELSE "missing"
After(p, f) == [p EXCEPT !.tried = @ \cup Needs(f)]
ImportOutcome(m) == IF m \in Removed THEN "removed" ELSE "ok"
\* an event of a process
Do(p, e) == CASE e.op = "start" -> Started(e.env)
              [] e.op = "use" -> After(p, e.f)
              [] e.op = "together" -> After(After(p, e.f), e.g)
              [] OTHER -> p
Wanted(p, e) == CASE e.op = "import" -> ImportOutcome(e.m)
                  [] e.op = "use" -> Outcome(p, e.f)
                  [] OTHER -> "ok"
\* what the answer is a function of
Answer(e) == CASE e.op = "use" -> e.f
               [] e.op = "go" -> e.c \o "@" \o ToString(e.k)
               [] OTHER -> "nothing"
=============================================================================
