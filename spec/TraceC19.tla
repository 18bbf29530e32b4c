------------------------------ MODULE TraceC19 ------------------------------
(* Generated graphs have the shape their model prescribes.                     *)
EXTENDS Graphs, TraceBase

P == Case.p
IsShape(g) ==
  CASE Case.model = "mesh"  -> Len(g) = P[1] /\ Simple(g) /\ Links(g) = FullMeshLinks(P[1])
    [] Case.model = "tiers" -> Len(g) = FoldLeft(LAMBDA acc, k : acc + k, 0, P) /\ Simple(g) /\ Links(g) = TieredLinks(P)
    [] Case.model = "scale_free"  -> ScaleFree(g, P[1], P[2], P[3])
    [] Case.model = "small_world" -> /\ SmallWorld(g, P[1], P[2])
                                     /\ (Case.beta = 0 => Links(g) = RingLinks(P[1], P[2]))
    [] OTHER -> TRUE
EvMade == IsEvent("made") /\ IsShape(Ev.g) /\ st' = Ev.g
EvMeasured ==
  /\ Observe("measured")
  /\ Ev.n = Len(st)
  /\ Ev.outd = [k \in DOMAIN st |-> Len(st[k])]
  /\ Ev.ind = [k \in DOMAIN st |-> InDegree(st, k - 1)]
  /\ NoDups(Ev.connected) /\ SetOf(Ev.connected) = ConnectedNodes(st)
  /\ Ev.undirected = Undirected(st)
\* what a renaming leaves alone: links from a node, links to it, and links from the nodes it links to
Kinds(g) ==
  LET ind == TLCEval([k \in DOMAIN g |-> InDegree(g, k - 1)])
  IN  TLCEval([k \in DOMAIN g |-> <<Len(g[k]), ind[k], FoldLeft(LAMBDA u, y : u + OutDegree(g, y) * OutDegree(g, y), 0, g[k]),
                                     FoldLeft(LAMBDA u, y : u + ind[y + 1] * ind[y + 1], 0, g[k])>>])
\* p is a renaming under which the shuffled graph should be the original: any will do, TLC looks for one
EvShuffled ==
  /\ Observe("shuffled")
  /\ IF Len(st) <= 5
     THEN Len(Ev.g) = Len(st) /\ \E p \in Bijections(Len(st)) : Renamed(st, Ev.g, p)
     ELSE /\ Len(Ev.g) = Len(st) /\ TotalLinks(Ev.g) = TotalLinks(st)
          /\ LET old == Kinds(st)
                 new == Kinds(Ev.g)
             IN  \A s \in SetOf(old) \cup SetOf(new) :
                   Cardinality({ k \in DOMAIN old : old[k] = s }) = Cardinality({ k \in DOMAIN new : new[k] = s })

Next == \/ Load(<<>>)
        \/ EvMade
        \/ EvMeasured
        \/ EvShuffled
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
