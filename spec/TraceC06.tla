------------------------------ MODULE TraceC06 ------------------------------
(* Minimal splitting sets are found exactly and completely. *)
EXTENDS Counting, TraceBase

BySize(ss) == \A k \in 1..(Len(ss) - 1) : Len(ss[k]) <= Len(ss[k + 1])
IsExactly(ss, S) == Lists(ss) /\ SetsOf(ss) = S /\ BySize(ss)

EvAnalysis == Observe("analysis") /\ IsExactly(Ev.r, SplittingAnswerOf(st))
\* the search itself is specified for FBASs with quorum intersection only
EvFind == Observe("find") /\ (QIof(st) => IsExactly(Ev.r, MinSplittingOf(st)))

\* long results, known in closed form
IsLong == "count" \in DOMAIN Case
EvCounted == Observe("counted") /\ CountedOk(Case, Case.count, Ev)
EvCountedFind == Observe("counted_find") /\ Ev.len = NumberOf(Case.count, IF Ev.what = "mq" THEN QuorumShape(Case.count) ELSE BlockingShape(Case.count))

Next == \/ Load(IF IsLong THEN {} ELSE MQ(Case))
        \/ EvAnalysis
        \/ EvFind
        \/ EvCounted
        \/ EvCountedFind
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
