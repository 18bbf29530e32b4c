------------------------------ MODULE TraceC15 ------------------------------
(* Merging a quorum set by group keeps what groups can satisfy.                *)
EXTENDS Groups, TraceBase

GS == Case.groups
\* unions of whole groups and ungrouped nodes
Blocks == { Peers(GS, x) : x \in 0..(Case.n - 1) }
\* all of them, or a sample that comes with a case that has too many
Unions == IF Case.probes = <<>> THEN { UNION b : b \in SUBSET Blocks }
          ELSE { UNION { Peers(GS, x) : x \in SetOf(s) } : s \in SetOf(Case.probes) }

EvRep == /\ IsEvent("rep") /\ IsRepresentation(GS, Case.n, Ev.r)
         /\ st' = [rep |-> Ev.r, unions |-> Unions]
Keeps(q, m) ==
  /\ Contained(m) \subseteq MergeBy(st.rep, Contained(q))
  /\ \A S \in st.unions : Slice(q, S) <=> Slice(m, MergeBy(st.rep, S))
EvMerge  == Observe("merge") /\ Keeps(Case.qs[Ev.k], Ev.r)
EvMerges == /\ Observe("merges") /\ Len(Ev.r) = Len(Case.qs)
            /\ \A k \in DOMAIN Ev.r : Keeps(Case.qs[k], Ev.r[k])
\* the pretty form names the representatives of the merged quorum set by their group
RECURSIVE Named(_)
Named(q) == [t |-> q.t, v |-> [k \in DOMAIN q.v |-> Case.pretty[q.v[k] + 1]],
             i |-> [k \in DOMAIN q.i |-> Named(q.i[k])]]
\* as a quorum set over names it is satisfied by the same unions of groups
EvPretty ==
  /\ Observe("pretty")
  /\ \A S \in st.unions :
        Slice(Case.qs[Ev.k], S) <=> Slice(Ev.r, { Case.pretty[x + 1] : x \in S })
  /\ Contained(Ev.r) \subseteq { Case.pretty[x + 1] : x \in Contained(Case.qs[Ev.k]) }

Next == \/ Load(<<>>)
        \/ EvRep
        \/ EvMerge
        \/ EvMerges
        \/ EvPretty
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
