------------------------------ MODULE TraceC10 ------------------------------
(* Restricting an FBAS to a set of nodes preserves its quorums there. *)
EXTENDS Finders, TraceBase

Keep  == SetOf(Case.keep)
Keep2 == SetOf(Case.keep2)
EvRelevant ==
  /\ Observe("relevant")
  /\ st.rmin \subseteq SetOf(Ev.r) /\ SetOf(Ev.r) \subseteq st.rmax
  /\ st.top \subseteq SetOf(Ev.r)
EvShrink ==
  /\ Observe("shrink")
  /\ LET m == Ranks(Keep)
     IN  /\ Ev.g.n = Cardinality(Keep)
         /\ Len(Ev.table) = Ev.g.n
         /\ \A x \in Keep : Ev.table[m[x] + 1] = x
         /\ IsProjectionProbed(Case, Keep, Ev.g, m, Case.probe)
         /\ SetOf(Ev.down) = Image(m, Keep2)
         /\ SetOf(Ev.up) = Keep2
         /\ SetsOf(Ev.downs) = Images(m, {Keep2, {}, Keep}) /\ Len(Ev.downs) = 3
         /\ SetsOf(Ev.ups) = {Keep2, {}, Keep} /\ Len(Ev.ups) = 3
EvReshrink ==
  /\ Observe("reshrink")
  /\ LET m == Ranks(Keep2)
     IN  /\ IsProjectionProbed(Case, Keep2, Ev.g, m, Case.probe)
         /\ Len(Ev.r) = 2
         /\ SetOf(Ev.r[1]) = Nodes(Ev.g) /\ SetOf(Ev.r[2]) = {}
EvTwice ==
  /\ Observe("twice")
  /\ LET m == Ranks(Keep2)
     IN  /\ IsProjectionProbed(Case, Keep2, Ev.g, m, Case.probe)
         /\ Len(Ev.table) = 1 /\ SetOf(Ev.table[1]) = Keep2
\* a grouping is carried over: same groups, those of their members that are kept
EvGroups ==
  /\ Observe("groups")
  /\ LET m == Ranks(Keep)
         G == DOMAIN Case.groups
     IN  /\ Ev.count = Len(Case.groups)
         /\ Ev.names = [k \in G |-> "g" \o ToString(k - 1)]
         /\ Len(Ev.members) = Len(Case.groups)
         /\ \A k \in G : SetOf(Ev.members[k]) = Image(m, SetOf(Case.groups[k]) \cap Keep)
Oracle == [rmin |-> RelevantMin(Case), rmax |-> RelevantMax(Case), top |-> IF Case.listed THEN TopTierOf(MQ(Case)) ELSE {}]

Next == \/ Load(Oracle)
        \/ EvRelevant
        \/ EvShrink
        \/ EvReshrink
        \/ EvGroups
        \/ EvTwice
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
