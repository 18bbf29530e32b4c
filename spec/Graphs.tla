------------------------------- MODULE Graphs -------------------------------
(* Graphs: g is a sequence, g[i+1] the sequence of nodes that i links to.     *)
EXTENDS FBAS

GNodes(g)   == 0..(Len(g) - 1)
Links(g)    == { <<x, y>> \in GNodes(g) \X GNodes(g) : y \in SetOf(g[x + 1]) }
Simple(g)   == \A k \in DOMAIN g : /\ NoDups(g[k])
                                  /\ SetOf(g[k]) \subseteq GNodes(g)
                                  /\ (k - 1) \notin SetOf(g[k])
Undirected(g) == \A x \in GNodes(g) : \A y \in SetOf(g[x + 1]) : x \in SetOf(g[y + 1])
OutDegree(g, x) == Len(g[x + 1])
InDegree(g, x)  == FoldLeft(LAMBDA acc, s : acc + Cardinality({ k \in DOMAIN s : s[k] = x }), 0, g)
TotalLinks(g)   == FoldLeft(LAMBDA acc, s : acc + Len(s), 0, g)
ConnectedNodes(g) == { x \in GNodes(g) : g[x + 1] # <<>> } \cup UNION { SetOf(g[k]) : k \in DOMAIN g }
\* same links between the same nodes, whatever the order in which they are listed
SameGraph(g, h) == Len(g) = Len(h) /\ \A k \in DOMAIN g : Len(g[k]) = Len(h[k]) /\ SetOf(g[k]) = SetOf(h[k])

FullMeshLinks(n) == { <<x, y>> \in (0..(n - 1)) \X (0..(n - 1)) : x # y }

RECURSIVE TierOf(_, _)
TierOf(sizes, x) == IF x < sizes[1] THEN 1 ELSE 1 + TierOf(Tail(sizes), x - sizes[1])
TieredLinks(sizes) ==
  LET n == FoldLeft(LAMBDA acc, k : acc + k, 0, sizes)
      tier == [x \in 0..(n - 1) |-> TierOf(sizes, x)]
  IN  { <<x, y>> \in (0..(n - 1)) \X (0..(n - 1)) : x # y /\ tier[y] \in {tier[x], tier[x] - 1} }
\* Barabasi-Albert: complete core of m0 nodes; every further node brings m links to earlier nodes
ScaleFree(g, n, m0, m) ==
  /\ Len(g) = n /\ Simple(g) /\ Undirected(g)
  /\ \A x \in 0..(n - 1) :
       LET earlier == { y \in SetOf(g[x + 1]) : y < x }
       IN  IF x < m0 THEN earlier = 0..(x - 1) ELSE Cardinality(earlier) = m
\* Watts-Strogatz: rewired links keep the node they start from
SmallWorld(g, n, k) == /\ Len(g) = n /\ Simple(g) /\ Undirected(g) /\ TotalLinks(g) = n * k
                       /\ \A j \in DOMAIN g : Len(g[j]) >= k \div 2
RingLinks(n, k) == { <<x, y>> \in (0..(n - 1)) \X (0..(n - 1)) :
                       \E d \in 1..(k \div 2) : y = (x + d) % n \/ x = (y + d) % n }

Renamed(g, h, p) == /\ Len(g) = Len(h)
                    /\ \A x \in GNodes(g) : SetOf(h[p[x] + 1]) = { p[y] : y \in SetOf(g[x + 1]) }
Bijections(n) == { p \in [0..(n - 1) -> 0..(n - 1)] : Cardinality({ p[x] : x \in 0..(n - 1) }) = n }
=============================================================================
