------------------------------ MODULE TraceC08 ------------------------------
(* Symmetric clusters and the symmetric top tier are recognised exactly. *)
EXTENDS FBAS, TraceBase

EvClusters  == Observe("clusters") /\ NoDups(Ev.r) /\ SetOf(Ev.r) = st.sc
EvAClusters == Observe("analysis_clusters") /\ NoDups(Ev.r) /\ SetOf(Ev.r) = st.sc
EvTT        == Observe("top_tier") /\ SetOf(Ev.r) = st.tt
EvATT       == Observe("analysis_top_tier") /\ SetOf(Ev.r) = st.tt
Oracle == [sc |-> SymClusters(Case), tt |-> SymTopTier(Case)]

Next == \/ Load(Oracle)
        \/ EvClusters
        \/ EvAClusters
        \/ EvTT
        \/ EvATT
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
