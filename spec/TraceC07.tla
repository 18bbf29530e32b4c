------------------------------ MODULE TraceC07 ------------------------------
(* The top tier is the union of all minimal quorums (= of all minimal blocking sets). *)
EXTENDS Counting, TraceBase

IsTT(s) == NoDups(s) /\ SetOf(s) = st
EvTT    == Observe("top_tier") /\ IsTT(Ev.r)
EvMbs   == Observe("top_tier_after_mbs") /\ IsTT(Ev.r) /\ IsTT(Ev.involved)
EvMq    == Observe("top_tier_after_mq") /\ IsTT(Ev.r) /\ IsTT(Ev.involved) /\ IsTT(Ev.again) /\ IsTT(Ev.mbs)
EvInv   == Observe("involved") /\ SetOf(Ev.mss) \subseteq st /\ IsTT(Ev.r)

\* long results, known in closed form
IsLong == "count" \in DOMAIN Case
Core == CoreOf(Case.count)
EvCountedTops == /\ Observe("counted_tops") /\ IsCounted(Case, Case.count)
                 /\ SetOf(Ev.first) = Core /\ NoDups(Ev.first) /\ SetOf(Ev.after) = Core /\ NoDups(Ev.after)
                 /\ SetOf(Ev.mq) = Core /\ SetOf(Ev.mbs) = Core

Next == \/ Load(IF IsLong THEN {} ELSE TopTierOf(MQ(Case)))
        \/ EvTT
        \/ EvMbs
        \/ EvMq
        \/ EvInv
        \/ EvCountedTops
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
