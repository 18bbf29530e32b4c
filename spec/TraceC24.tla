------------------------------ MODULE TraceC24 ------------------------------
(* Strongly connected components partition the trust graph exactly. *)
EXTENDS FBAS, TraceBase

Partition(ss, W) == /\ UNION SetsOf(ss) = W
                    /\ Len(ss) = Cardinality(SetsOf(ss))
                    /\ \A A, B \in SetsOf(ss) : A # B => A \cap B = {}
EvSccs == Observe("sccs") /\ Len(Ev.r) = Cardinality(SetsOf(Ev.r)) /\ SetsOf(Ev.r) = st.all
\* restricted to W, connections may or may not lead through nodes outside W
EvPartition ==
  /\ Observe("partition")
  /\ LET W  == SetOf(Ev.s)
         P  == SetsOf(Ev.r) \ {{}}
         SW == SCCs(Case, W)
     IN  /\ UNION P = W
         /\ \A A, B \in P : A # B => A \cap B = {}
         /\ \A D \in P : \E C \in st.all : D \subseteq C
         /\ \A C \in SW : \E D \in P : C \subseteq D
Oracle == [all |-> SCCs(Case, Nodes(Case))]

Next == \/ Load(Oracle)
        \/ EvSccs
        \/ EvPartition
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
