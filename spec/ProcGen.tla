------------------------------ MODULE ProcGen ------------------------------
(***************************************************************************)
(* Histories of processes: starts in any environment, imports, features,   *)
(* two features at once, and objects that learn a chunk, are saved and go  *)
(* on in a later process.                                                  *)
(***************************************************************************)
EXTENDS Processes, Json
CONSTANTS Depth, Features, Modules, Classes, Hows, Chunks, EnvSet
VARIABLES proc, saved, log, done
vars == <<proc, saved, log, done>>
Init == /\ \E e \in EnvSet : proc = Started(e) /\ log = <<[op |-> "start", env |-> e]>>
        /\ saved = [s \in Classes \X Hows |-> 0] /\ done = FALSE
Add(e) == log' = Append(log, e)
Start == \E e \in EnvSet : /\ log[Len(log)].op # "start"
                           /\ Add([op |-> "start", env |-> e]) /\ proc' = Started(e) /\ UNCHANGED saved
Import == \E m \in Modules \cup Removed : Add([op |-> "import", m |-> m]) /\ UNCHANGED <<proc, saved>>
Use == \E f \in Features : Add([op |-> "use", f |-> f]) /\ proc' = After(proc, f) /\ UNCHANGED saved
Together == \E f, g \in Features : /\ Needs(f) = {} /\ Needs(g) = {}
                                   /\ Add([op |-> "together", f |-> f, g |-> g]) /\ UNCHANGED <<proc, saved>>
Go == \E s \in Classes \X Hows : /\ saved[s] < Chunks
                                 /\ saved' = [saved EXCEPT ![s] = @ + 1]
                                 /\ Add([op |-> "go", c |-> s[1], how |-> s[2], k |-> saved[s] + 1]) /\ UNCHANGED proc
Step == /\ Len(log) < Depth /\ done' = done
        /\ Start \/ Import \/ Use \/ Together \/ Go
Finish == Len(log) >= Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<proc, saved, log>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- laws
LastStart == CHOOSE i \in 1..Len(log) : log[i].op = "start" /\ \A j \in (i + 1)..Len(log) : log[j].op # "start"
Here == {log[i] : i \in (LastStart + 1)..Len(log)}
\* the process is what its own events make it: nothing crosses from one process to the next but saved objects
RECURSIVE Replay(_, _)
Replay(p, i) == IF i > Len(log) THEN p ELSE Replay(Do(p, log[i]), i + 1)
Isolated == proc = Replay(Started(log[LastStart].env), LastStart + 1)
\* only a data frame brings anything in, and never what is not installed
Bare == (\A e \in Here : e.op = "use" => Kind(e.f) = "plain") => proc.tried = {}
Blocked == \A e \in Here : e.op = "use" => (Wanted(proc, e) = "ok" <=> Needs(e.f) \cap proc.env.blocked = {})
\* the answers a saved object gives are those of an object that was never saved: they follow the chunks in order
Ordered == \A c \in Classes, h \in Hows :
   LET ks == SelectSeq(log, LAMBDA e : e.op = "go" /\ e.c = c /\ e.how = h) IN
   /\ Len(ks) = saved[<<c, h>>] /\ \A i \in 1..Len(ks) : ks[i].k = i /\ Answer(ks[i]) = c \o "@" \o ToString(i)
Emit == done => PrintT("@@BEH " \o ToJson([acts |-> log]))
=============================================================================
