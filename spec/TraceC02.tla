------------------------------ MODULE TraceC02 ------------------------------
(* Satisfiable nodes are exactly the nodes that are part of some quorum. *)
EXTENDS FBAS, TraceBase

EvSatisfiable == /\ Observe("satisfiable")
                 /\ SetOf(Ev.sat) = st /\ SetOf(Ev.unsat) = Nodes(Case) \ st
EvAnalysis == /\ Observe("analysis")
              /\ SetOf(Ev.sat) = st /\ SetOf(Ev.unsat) = Nodes(Case) \ st
              /\ SetOf(Ev.all) = Nodes(Case)
              /\ NoDups(Ev.sat) /\ NoDups(Ev.unsat) /\ NoDups(Ev.all)
EvWithin == /\ Observe("within")
            /\ LET S == SetOf(Ev.s)
                   G == Greatest(Case, S)
               IN  SetOf(Ev.sat) = G /\ SetOf(Ev.unsat) = S \ G

Next == \/ Load(Sat(Case))
        \/ EvSatisfiable
        \/ EvAnalysis
        \/ EvWithin
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
