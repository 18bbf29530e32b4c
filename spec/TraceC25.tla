------------------------------ MODULE TraceC25 ------------------------------
(* Runs of the graph generator, the QSC simulator and, at the end of the pipe,  *)
(* the analyzer. st.g: the current graph, st.r: its rank scores, st.f: the last *)
(* FBAS that was printed.                                                      *)
EXTENDS Simulated, TraceBase
A == INSTANCE AsRel

GraphOf(L) == [k \in 1..A!SizeOfLinks(L) |-> SetToSeq({ y \in 0..(A!SizeOfLinks(L) - 1) : <<k - 1, y>> \in L })]
Relabel(g, p) == [k \in DOMAIN g |-> LET x == CHOOSE y \in GNodes(g) : p[y] = k - 1
                                     IN  [j \in DOMAIN g[x + 1] |-> p[g[x + 1][j]]]]

\* p: parameters of the model
ShapeOk(e, g) ==
  CASE e.model = "scale_free" ->
         /\ Len(g) = e.p[1] /\ Simple(g) /\ Undirected(g)
         /\ TotalLinks(g) = e.p[2] * (e.p[2] - 1) + 2 * (e.p[1] - e.p[2]) * e.p[3]
         /\ IF ~e.shuffle THEN ScaleFree(g, e.p[1], e.p[2], e.p[3])
            ELSE Len(g) <= 5 => \E p \in Bijections(Len(g)) : ScaleFree(Relabel(g, p), e.p[1], e.p[2], e.p[3])
    [] e.model = "small_world" ->
         /\ SmallWorld(g, e.p[1], e.p[2])
         /\ e.beta = 0 => IF ~e.shuffle THEN Links(g) = RingLinks(e.p[1], e.p[2])
                          ELSE Len(g) <= 5 => \E p \in Bijections(Len(g)) : Links(Relabel(g, p)) = RingLinks(e.p[1], e.p[2])

EvGenerated ==
  /\ IsEvent("generated") /\ Ev.exit = 0
  /\ LET g == GraphOf(A!LinksOfLines(Ev.lines))
     IN  /\ TRUE = ShapeOk(Ev, g)
         \* each link is listed once
         /\ LET named == SelectSeq(Ev.lines, LAMBDA l : l.k = "link") IN Cardinality(SetOf(named)) = Len(named)
         /\ st' = [st EXCEPT !.g = g]
EvGraph == IsEvent("graph") /\ st' = [st EXCEPT !.g = GraphOf(A!LinksOfLines(Ev.lines))]
EvRanks == IsEvent("ranks") /\ IsRanking(st.g, Ev.r) /\ st' = [st EXCEPT !.r = Ev.r]

\* the number of nodes asked for
Wanted(e) == (IF e.initial > 0 \/ e.grow > 0 THEN e.initial ELSE IF e.graphy THEN Len(st.g) ELSE 0) + e.grow
EvSimulated ==
  /\ IsEvent("simulated") /\ Ev.exit = 0
  /\ Ev.n = Wanted(Ev)
  /\ Ev.names = [k \in 1..Ev.n |-> k - 1]
  /\ LET F == [n |-> Ev.n, q |-> Ev.q]
     IN  /\ FinalOk([g |-> st.g] @@ Ev.pol, st.r, F)
         /\ st' = [st EXCEPT !.f = F]
EvAnalyzed ==
  /\ Observe("analyzed") /\ Ev.exit = 0 /\ Ev.n = st.f.n
  /\ st.f.n <= 8 => Ev.qi = QIof(MinQuorums(st.f))

Next == \/ Load([g |-> <<>>, r |-> <<>>, f |-> <<>>])
        \/ EvGenerated
        \/ EvGraph
        \/ EvRanks
        \/ EvSimulated
        \/ EvAnalyzed
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
