------------------------------ MODULE TraceC16 ------------------------------
(* Results are post-processed and printed faithfully. st.r is the current      *)
(* result (a sequence of sets in original ids), st.rep the merging function.   *)
EXTENDS Results, Counting, TraceBase

GS == Case.groups
Keys == Case.keys
ToSets(lists) == [k \in DOMAIN lists |-> SetOf(lists[k])]
BySize(r) == \A k \in 1..(Len(r) - 1) : Cardinality(r[k]) <= Cardinality(r[k + 1])

EvRep == /\ IsEvent("rep") /\ IsRepresentation(GS, Case.n, Ev.r)
         /\ st' = [st EXCEPT !.rep = Ev.r]
\* a fresh result of the analysis; what it must be is C03..C07
EvStart == /\ IsEvent("start")
           /\ \A k \in DOMAIN Ev.r : SetOf(Ev.r[k]) \subseteq 0..(Case.n - 1)
           /\ st' = [st EXCEPT !.r = ToSets(Ev.r)]
\* names of nodes and groups that `without_nodes_pretty` was given
NamedNodes(names, grouped) ==
  UNION { IF grouped /\ \E g \in DOMAIN GS : GS[g].name = names[k]
          THEN Members(GS[CHOOSE g \in DOMAIN GS : GS[g].name = names[k]])
          ELSE { x \in 0..(Case.n - 1) : Keys[x + 1] = names[k] } : k \in DOMAIN names }
EvWithout == /\ IsEvent("without")
             /\ LET r == WithoutNodes(st.r, SetOf(Ev.ids))
                IN  Shows(Ev.r, r) /\ st' = [st EXCEPT !.r = r]
EvWithoutPretty ==
  /\ IsEvent("without_pretty")
  /\ LET r == WithoutNodes(st.r, NamedNodes(Ev.names, Ev.grouped))
     IN  Shows(Ev.r, r) /\ st' = [st EXCEPT !.r = r]
EvMerged == /\ IsEvent("merged")
            /\ LET r == MergedBy(st.r, st.rep)
               IN  Shows(Ev.r, r) /\ st' = [st EXCEPT !.r = r]
EvMinimal == /\ IsEvent("minimal")
             /\ LET r == ToSets(Ev.r)
                IN  /\ Lists(Ev.r) /\ SeqSets(r) = MinimalSets(SeqSets(st.r)) /\ BySize(r)
                    /\ Shows(Ev.r, r)
                    /\ st' = [st EXCEPT !.r = r]
\* every view of the current result
EvViews ==
  /\ Observe("views")
  /\ LET r == st.r
     IN  /\ Shows(Ev.unwrapped, r) /\ Shows(Ev.vecs, r) /\ Shows(Ev.idstring, r) /\ Shows(Ev.serialized, r)
         /\ Ev.len = Len(r) /\ Ev.empty = (r = <<>>)
         /\ Ev.hasempty = ({} \in SeqSets(r))
         /\ Ev.min = MinSize(r) /\ Ev.max = MaxSize(r) /\ MeanOk(Ev.mean, r)
         /\ Ev.histogram = Histogram(r)
         /\ Increasing(Ev.involved) /\ SetOf(Ev.involved) = Involved(r)
         /\ Ev.describe.n = Len(r) /\ Ev.describe.nodes = Cardinality(Involved(r))
         /\ Ev.describe.min = MinSize(r) /\ Ev.describe.max = MaxSize(r) /\ MeanOk(Ev.describe.mean, r)
         /\ Ev.describe.hist = Histogram(r)
         /\ Ev.describestring = Ev.describe
NameOf(x, grouped) == IF grouped /\ GroupsOf(GS, x) # {}
                      THEN GS[CHOOSE g \in GroupsOf(GS, x) : TRUE].name ELSE Keys[x + 1]
NamesOf(lists, grouped) == [k \in DOMAIN lists |-> [j \in DOMAIN lists[k] |-> NameOf(lists[k][j], grouped)]]
EvPretty ==
  /\ Observe("pretty")
  /\ Shows(Ev.ids, st.r)
  /\ Ev.plain = NamesOf(Ev.ids, FALSE) /\ Ev.plainstring = Ev.plain
  /\ Ev.grouped = NamesOf(Ev.ids, TRUE) /\ Ev.groupedstring = Ev.grouped
\* the same for results that are one set (top tier, satisfiable nodes)
EvSingle ==
  /\ Observe("single")
  /\ LET S == SetOf(Ev.r)
         is(list, T) == Increasing(list) /\ SetOf(list) = T
     IN  /\ Increasing(Ev.r) /\ S \subseteq 0..(Case.n - 1)
         /\ is(Ev.unwrapped, S) /\ is(Ev.involved, S) /\ is(Ev.idstring, S) /\ is(Ev.serialized, S)
         /\ Ev.len = Cardinality(S) /\ Ev.describestring = Cardinality(S) /\ Ev.empty = (S = {})
         /\ is(Ev.without, S \ SetOf(Case.ids)) /\ is(Ev.merged, MergeBy(st.rep, S))
         /\ is(Ev.wpretty, S \ NamedNodes(Case.dropnames, TRUE))
         /\ is(Ev.wplain, S \ NamedNodes(Case.dropnames, FALSE))
         /\ Ev.plain = NamesOf(<<Ev.r>>, FALSE)[1] /\ Ev.grouped = NamesOf(<<Ev.r>>, TRUE)[1]
         /\ Ev.groupedstring = Ev.grouped
\* quorum sets: printed as IDs and with names
RECURSIVE Named(_)
Named(q) == [t |-> q.t, v |-> [k \in DOMAIN q.v |-> Keys[q.v[k] + 1]], i |-> [k \in DOMAIN q.i |-> Named(q.i[k])]]
EvQSets ==
  /\ Observe("qsets")
  /\ SameQSets(Ev.idstring, Ev.r) /\ SameQSets(Ev.describe, Ev.r)
  /\ Len(Ev.one) = Len(Ev.r)
  /\ \A k \in DOMAIN Ev.r : /\ SameQSet(Ev.one[k].id, Ev.r[k]) /\ SameQSet(Ev.one[k].describe, Ev.r[k])
                            /\ SameQSet(Ev.one[k].pretty, Named(Ev.r[k]))
  /\ SameQSets(Ev.pretty, [k \in DOMAIN Ev.r |-> Named(Ev.r[k])])

\* long results, known in closed form
EvCounted == Observe("counted") /\ CountedOk(Case, Case.count, Ev)
EvCountedFind == Observe("counted_find") /\ Ev.len = NumberOf(Case.count, IF Ev.what = "mq" THEN QuorumShape(Case.count) ELSE BlockingShape(Case.count))

Next == \/ Load([rep |-> <<>>, r |-> <<>>])
        \/ EvRep
        \/ EvStart
        \/ EvWithout
        \/ EvWithoutPretty
        \/ EvMerged
        \/ EvMinimal
        \/ EvViews
        \/ EvPretty
        \/ EvSingle
        \/ EvQSets
        \/ EvCounted
        \/ EvCountedFind
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
