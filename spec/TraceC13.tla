------------------------------ MODULE TraceC13 ------------------------------
(* Groupings are loaded exactly by organization, ISP and country.              *)
(* Case.names: public keys of the FBAS in id order. Case.orgs: organizations   *)
(* as written [name, keys]. Case.nodes: the nodes file [key, isp, country],    *)
(* names are code point sequences, hasisp/hascountry say if present.           *)
EXTENDS Groups, TraceBase

Names == Case.names
N == Len(Names)
Known(keys) == LET ks == SelectSeq(keys, LAMBDA x : x \in SetOf(Names))
               IN  [k \in DOMAIN ks |-> IdOf(Names, ks[k])]
Orgs == [k \in DOMAIN Case.orgs |-> [name |-> Case.orgs[k].name, validators |-> Known(Case.orgs[k].keys)]]

\* grouping the nodes of a file by the cleaned name
ByName(rows) ==
  LET texts == { Cleaned(rows[k].name) : k \in { j \in DOMAIN rows : rows[j].has } }
      seq   == SetToSortSeq(texts, Before)
  IN  [k \in DOMAIN seq |->
         [name |-> seq[k],
          validators |-> Known([j \in DOMAIN SelectSeq(rows, LAMBDA r : r.has /\ Cleaned(r.name) = seq[k]) |->
                           SelectSeq(rows, LAMBDA r : r.has /\ Cleaned(r.name) = seq[k])[j].key])]]
Isps      == ByName([k \in DOMAIN Case.nodes |-> [key |-> Case.nodes[k].key, has |-> Case.nodes[k].hasisp, name |-> Case.nodes[k].isp]])
Countries == ByName([k \in DOMAIN Case.nodes |-> [key |-> Case.nodes[k].key, has |-> Case.nodes[k].hascountry, name |-> Case.nodes[k].country]])

Groupings(kind) == CASE kind = "orgs" -> st.orgs [] kind = "isps" -> st.isps [] OTHER -> st.countries

IsGroups(r, gs) ==
  /\ Len(r) = Len(gs)
  /\ \A k \in DOMAIN gs : r[k].name = gs[k].name /\ Bag(r[k].validators) = Bag(gs[k].validators)
EvLoaded == Observe("loaded") /\ IsGroups(Ev.r, Groupings(Ev.kind)) /\ Ev.count = Len(Groupings(Ev.kind))
\* look-up by member: Ev.r[x+1] is the name under which node x is printed and whether a group was found
EvMember ==
  /\ Observe("member")
  /\ Len(Ev.some) = N
  /\ LET gs == Groupings(Ev.kind)
     IN  \A x \in 0..(N - 1) :
           /\ Ev.some[x + 1] = (GroupsOf(gs, x) # {})
           /\ IF GroupsOf(gs, x) = {} THEN Ev.pretty[x + 1] = Case.keycodes[x + 1]
              ELSE \E k \in GroupsOf(gs, x) : Ev.pretty[x + 1] = gs[k].name
\* look-up by name: found or not; the nodes whose group by member is the very group found
EvByName ==
  /\ Observe("byname")
  /\ LET gs == Groupings(Ev.kind)
         ks == { k \in DOMAIN gs : gs[k].name = Ev.name }
     IN  /\ Ev.some = (ks # {})
         /\ Disjoint(gs) /\ ks # {} => \E k \in ks : SetOf(Ev.members) = Members(gs[k])

Next == \/ Load([orgs |-> Orgs, isps |-> Isps, countries |-> Countries])
        \/ EvLoaded
        \/ EvMember
        \/ EvByName
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
