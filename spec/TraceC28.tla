------------------------------ MODULE TraceC28 ------------------------------
(* Nodes rank by the trust that flows to them (C28).                           *)
EXTENDS Ranking, TraceBase
F == [n |-> Case.n, q |-> Case.q]
\* scores may depend on nothing but the FBAS: the same for a copy, permuted for a renaming
EvRanks   == /\ Observe("ranks") /\ IsRanking(F, Ev.r)
             /\ \A y \in Untrusted(F) : Ev.r[y + 1] = 0
EvWithin  == /\ Observe("within")
             /\ LET W == SetOf(Ev.w) IN IsRankingWithin(F, W, Ev.r) /\ IsOrder(W, Ev.r, Ev.order)
EvRenamed == /\ Observe("renamed") /\ Len(Ev.r) = F.n
             /\ \A x \in Nodes(F) : LET d == Ev.r[Case.perm[x + 1] + 1] - Ev.base[x + 1] IN d \in -2..2
Next == \/ Load(<<>>)
        \/ EvRanks
        \/ EvRenamed
        \/ EvWithin
        \/ Done
Spec == TInit /\ [][Next]_tvars
=============================================================================
