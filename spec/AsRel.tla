-------------------------------- MODULE AsRel --------------------------------
(* AS relationship data: a sequence of lines [k |-> "link", a, b, peer] or      *)
(* [k |-> "other"] for comments and empty lines.                                *)
EXTENDS Graphs

LineLinks(l) == IF l.k # "link" THEN {}
                ELSE IF l.peer THEN { <<l.a, l.b>>, <<l.b, l.a>> }
                ELSE { <<l.b, l.a>> }          \* customer b -> provider a
LinksOfLines(ls) == UNION { LineLinks(ls[k]) : k \in DOMAIN ls }
\* number of nodes: up to the largest one mentioned
SizeOfLinks(L) == IF L = {} THEN 0 ELSE 1 + Max({ p[1] : p \in L } \cup { p[2] : p \in L })
ReadsAs(g, L) == /\ Len(g) = SizeOfLinks(L) /\ Links(g) = L
                 /\ \A k \in DOMAIN g : NoDups(g[k])
\* What the writer does with links that go one way only is a known finding: they come back reversed.
OneWay(L) == { p \in L : <<p[2], p[1]>> \notin L }
WithOneWayReversed(L) == (L \ OneWay(L)) \cup { <<p[2], p[1]>> : p \in OneWay(L) }
=============================================================================
