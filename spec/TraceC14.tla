------------------------------ MODULE TraceC14 ------------------------------
(* Merging node sets by group collapses groups and nothing else.               *)
(* st = the representation function observed from merging single nodes.        *)
EXTENDS Groups, TraceBase

GS == Case.groups
BySize(ss) == \A k \in 1..(Len(ss) - 1) : Len(ss[k]) <= Len(ss[k + 1])
IsMinimalOf(r, SS) == Lists(r) /\ SetsOf(r) = MinimalSets(SS) /\ BySize(r)
Merged(ss) == { MergeBy(st, SetOf(ss[k])) : k \in DOMAIN ss }

EvRep == /\ IsEvent("rep") /\ IsRepresentation(GS, Case.n, Ev.r) /\ st' = Ev.r
EvSet == Observe("set") /\ NoDups(Ev.r) /\ SetOf(Ev.r) = MergeBy(st, SetOf(Ev.s))
EvSets == /\ Observe("sets") /\ Len(Ev.r) = Len(Case.sets)
          /\ \A k \in DOMAIN Ev.r : SetOf(Ev.r[k]) = MergeBy(st, SetOf(Case.sets[k]))
EvMergeMinimal == Observe("merge_minimal") /\ IsMinimalOf(Ev.r, Merged(Case.sets))
EvMinimal == Observe("minimal") /\ IsMinimalOf(Ev.r, SetsOf(Case.sets))
EvIsMinimal == /\ Observe("is_minimal")
               /\ Ev.r = (Lists(Case.sets) /\ MinimalSets(SetsOf(Case.sets)) = SetsOf(Case.sets))
\* any two entries share a node (entries may repeat)
PairwiseIntersect(ss) == \A k, l \in DOMAIN ss : k < l => SetOf(ss[k]) \cap SetOf(ss[l]) # {}
EvIntersect == /\ Observe("intersect")
               /\ Ev.r = PairwiseIntersect(Case.sets)
               /\ Ev.short = PairwiseIntersect(SubSeq(Case.sets, 1, IF Len(Case.sets) < 3 THEN Len(Case.sets) ELSE 3))
               /\ NoDups(Ev.involved) /\ SetOf(Ev.involved) = UNION SetsOf(Case.sets)

Next == \/ Load(<<>>)
        \/ EvRep
        \/ EvSet
        \/ EvSets
        \/ EvMergeMinimal
        \/ EvMinimal
        \/ EvIsMinimal
        \/ EvIntersect
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
