------------------------------ MODULE TraceC03 ------------------------------
(* Minimal quorums: exactly the inclusion-minimal quorums, each once. *)
EXTENDS Counting, TraceBase

BySize(ss) == \A k \in 1..(Len(ss) - 1) : Len(ss[k]) <= Len(ss[k + 1])
IsExactly(ss, S) == Lists(ss) /\ SetsOf(ss) = S /\ BySize(ss)

EvFind     == Observe("find") /\ IsExactly(Ev.r, st)
EvAnalysis == Observe("analysis") /\ IsExactly(Ev.r, st)

\* long results, known in closed form
IsLong == "count" \in DOMAIN Case
EvCounted == Observe("counted") /\ CountedOk(Case, Case.count, Ev)
EvCountedFind == Observe("counted_find") /\ Ev.len = NumberOf(Case.count, IF Ev.what = "mq" THEN QuorumShape(Case.count) ELSE BlockingShape(Case.count))

Next == \/ Load(IF IsLong THEN {} ELSE MQ(Case))
        \/ EvFind
        \/ EvAnalysis
        \/ EvCounted
        \/ EvCountedFind
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
