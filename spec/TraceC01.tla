------------------------------ MODULE TraceC01 ------------------------------
(* Quorum slices and quorums follow the threshold definition. Sets of node  *)
(* sets are recorded as bit masks here.                                     *)
EXTENDS FBAS, TraceBase

RECURSIVE AllPositive(_)
AllPositive(q) == q.t > 0 /\ \A k \in DOMAIN q.i : AllPositive(q.i[k])

Masks   == 0..(2^Case.n - 1)
Bits(m) == { x \in Nodes(Case) : (m \div 2^x) % 2 = 1 }

EvQuorums == /\ Observe("quorums")
             /\ SetOf(Ev.r) = { m \in Masks : IsQuorum(Case, Bits(m)) }
EvSlices  == /\ Observe("slices")
             /\ SetOf(Ev.r) = { m \in Masks : Slice(QSet(Case, Ev.x), Bits(m)) }
EvContained ==
  /\ Observe("contained")
  /\ SetOf(Ev.r) = Contained(QSet(Case, Ev.x))
  /\ Ev.dups = HasDups(QSet(Case, Ev.x))
Probe == [k \in DOMAIN Case.probe |-> SetOf(Case.probe[k])]
EvProbeQuorums == Observe("probe_quorums") /\ Ev.r = [k \in DOMAIN Probe |-> IsQuorum(Case, Probe[k])]
EvProbeSlices  == Observe("probe_slices") /\ Ev.r = [k \in DOMAIN Probe |-> Slice(QSet(Case, Ev.x), Probe[k])]
\* the listed slices generate, by adding nodes, exactly the satisfying sets
EvEnumerate ==
  /\ Observe("enumerate")
  /\ LET listed == SetsOf(Ev.r)
         q == QSet(Case, Ev.x)
     IN  /\ \A S \in (IF Cardinality(Contained(q)) <= 8 THEN SUBSET Contained(q) ELSE SetOf(Probe)) : Slice(q, S) => \E s \in listed : s \subseteq S
         /\ AllPositive(q) => \A s \in listed : Slice(q, s)

Next == \/ Load(<<>>)
        \/ EvQuorums
        \/ EvSlices
        \/ EvProbeQuorums
        \/ EvProbeSlices
        \/ EvContained
        \/ EvEnumerate
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
