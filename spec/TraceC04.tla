------------------------------ MODULE TraceC04 ------------------------------
(* The quorum intersection verdict is right and its witness is real. *)
EXTENDS Counting, TraceBase

WitnessOk(w) == /\ Len(w) >= 2
                /\ \A k \in DOMAIN w : SetOf(w[k]) \subseteq Nodes(Case) /\ IsQuorum(Case, SetOf(w[k]))
                /\ SetOf(w[1]) \cap SetOf(w[2]) = {}
EvCheck == Observe("check") /\ Ev.r = st.qi
EvAlternative ==
  /\ Observe("alternative")
  /\ Ev.r = st.qi
  /\ Ev.some = (st.some /\ ~st.qi)
  /\ Ev.some => WitnessOk(Ev.w)
EvFind ==
  /\ Observe("find")
  /\ Ev.some = (st.some /\ ~st.qi)
  /\ Ev.some => WitnessOk(Ev.w)
\* systems of more quorums than can be listed
IsLong == "count" \in DOMAIN Case
LongOracle == [qi |-> CountedQI(Case.count) \/ NumberOf(Case.count, QuorumShape(Case.count)) = 1, some |-> TRUE]
Oracle == IF IsLong THEN (IF IsCounted(Case, Case.count) THEN LongOracle ELSE <<>>)
          ELSE LET mq == MQ(Case) IN [qi |-> QIof(mq), some |-> mq # {}]

Next == \/ Load(Oracle)
        \/ EvCheck
        \/ EvAlternative
        \/ EvFind
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
