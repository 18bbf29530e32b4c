------------------------------ MODULE TraceC11 ------------------------------
(* The standard form preserves the analysis and ignores node order. *)
EXTENDS Finders, TraceBase

\* names[k] is the node of the input (by its public key) at position k of the standard form
NamesOk(names) ==
  /\ NoDups(names)
  /\ LET R == SetOf(names)
     IN  /\ st.rmin \subseteq R /\ R \subseteq st.rmax
         /\ names = SelectSeq(st.order, LAMBDA x : x \in R)
Back(names, S) == { names[x + 1] : x \in S }
SameQuorums(g, names) ==
  /\ g.n = Len(names)
  /\ IF Case.probe = <<>>
     THEN \A S \in SUBSET Nodes(g) : IsQuorum(g, S) <=> IsQuorum(Case, Back(names, S))
     ELSE \A j \in DOMAIN Case.probe :
            LET S == { k \in Nodes(g) : names[k + 1] \in SetOf(Case.probe[j]) }
            IN  IsQuorum(g, S) <=> IsQuorum(Case, Back(names, S))
EvStandard ==
  /\ IsEvent("standard_form")
  /\ st' = [st EXCEPT !.order = Ev.order]
  /\ NoDups(Ev.names)
  /\ LET R == SetOf(Ev.names)
     IN  /\ st.rmin \subseteq R /\ R \subseteq st.rmax
         /\ Ev.names = SelectSeq(Ev.order, LAMBDA x : x \in R)
  /\ SameQuorums(Ev.g, Ev.names)
  /\ { Back(Ev.names, S) : S \in SetsOf(Ev.mq) } = st.mq
EvPermuted ==
  /\ Observe("permuted")
  /\ Ev.same_text /\ Ev.equal
  /\ NamesOk(Ev.names)
  /\ SameQuorums(Ev.g, Ev.names)
EvExtended == Observe("extended") /\ Ev.same_text /\ Ev.equal
Oracle == [rmin |-> RelevantMin(Case), rmax |-> RelevantMax(Case), mq |-> IF Case.listed THEN MQ(Case) ELSE {}, order |-> <<>>]

Next == \/ Load(Oracle)
        \/ EvStandard
        \/ EvPermuted
        \/ EvExtended
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
