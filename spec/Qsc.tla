--------------------------------- MODULE Qsc ---------------------------------
(***************************************************************************)
(* Quorum set policies: what configuring a node makes of its quorum set.    *)
(* Numbers: relative thresholds are fractions <<num, den>>, <<>> standing   *)
(* for the 67% rule. Rank scores are fixed-point numbers with unit 1/Unit.  *)
(***************************************************************************)
EXTENDS Graphs, QSetForm

Unit == 100000000
CeilDiv(a, b)  == (a + b - 1) \div b
T67(k)         == CeilDiv(2 * k + 1, 3)
Threshold(k, x) == IF x = <<>> THEN T67(k) ELSE IF CeilDiv(x[1] * k, x[2]) < 1 THEN 1 ELSE CeilDiv(x[1] * k, x[2])

\* a flat quorum set with exactly these validators, in whatever order
IsFlat(q, V, t) == q.t = t /\ q.i = <<>> /\ NoDups(q.v) /\ SetOf(q.v) = V
Fresh(q) == q = EmptyQSet

-----------------------------------------------------------------------------
(* Ranks: the simplified page rank of the code (no damping), as an iteration  *)
(* of fixed-point vectors. It stops when no score moves by epsilon or more;   *)
(* within a tolerance around epsilon either is possible.                      *)
\* in[y]: who links to y, once per link, and how many links it has
InLinks(g) == [y \in GNodes(g) |->
                 FoldLeft(LAMBDA acc, k : acc \o FoldLeft(LAMBDA a, z : IF z = y THEN Append(a, <<k - 1, Len(g[k])>>) ELSE a, <<>>, g[k]),
                          <<>>, [k \in 1..Len(g) |-> k])]
Flow(in, r) == TLCEval([y \in DOMAIN in |-> FoldLeft(LAMBDA acc, l : acc + (r[l[1]] + l[2] \div 2) \div l[2], 0, in[y])])
Abs(a) == IF a < 0 THEN -a ELSE a
MaxMove(a, b) == Max({ Abs(a[x] - b[x]) : x \in DOMAIN a })
Tol == 3000     \* 3 / 100000
RECURSIVE RankLoop(_, _, _, _, _)
\* the set of score vectors the iteration may stop with
RankLoop(in, r, k, eps, acc) ==
  IF k = 0 THEN acc \cup {r}
  ELSE LET nxt == Flow(in, r)
           move == MaxMove(nxt, r)
       IN  IF move < eps - Tol THEN acc \cup {nxt}
           ELSE IF move <= eps + Tol THEN RankLoop(in, nxt, k - 1, eps, acc \cup {nxt})
           ELSE RankLoop(in, nxt, k - 1, eps, acc)
Ranks0(g, runs) ==
  LET n == Len(g)
      eps == IF Unit \div (n * n) > Unit \div 100000 THEN Unit \div (n * n) ELSE Unit \div 100000
  IN  RankLoop(TLCEval(InLinks(g)), [x \in GNodes(g) |-> Unit \div n], runs, eps, {})
MaxRuns(n) == IF 2 * n > 1000 THEN 2 * n ELSE 1000

\* observed scores r (a sequence) are those of the iteration
IsRanking(g, r) ==
  /\ Len(r) = Len(g)
  /\ \E R \in Ranks0(g, MaxRuns(Len(g))) : \A x \in GNodes(g) : Abs(R[x] - r[x + 1]) <= 6000

-----------------------------------------------------------------------------
(* The policies. r: observed rank scores; close calls may go either way.      *)
\* Unless scores are certain: nodes that nobody links to have none, and if each of 2^k nodes
\* passes on all it has to one node, they are multiples of 1 / 2^k.
Slack == 30
Certain(g)    == Len(g) \in {1, 2, 4, 8, 16, 32} /\ \A k \in DOMAIN g : Len(g[k]) <= 1
NoScore(g, x) == InDegree(g, x) = 0
Higher(r, x, y) == r[y + 1] >= 2 * r[x + 1]        \* y is of a higher tier than x
Close(g, r, x, y) == Abs(r[y + 1] - 2 * r[x + 1]) <= Slack /\ ~Certain(g) /\ ~NoScore(g, x)

\* possible sets of neighbours chosen by HigherTierNeighbors
TierChoices(g, r, x) ==
  LET nb   == SetOf(g[x + 1])
      sure == { y \in nb : Higher(r, x, y) /\ ~Close(g, r, x, y) }
      unsure == { y \in nb : Close(g, r, x, y) }
      lowsure == { y \in nb : Higher(r, y, x) /\ ~Close(g, r, y, x) }
      lowunsure == { y \in nb : Close(g, r, y, x) }
      highs == { sure \cup u : u \in SUBSET unsure }
  IN  { H \in highs : H # {} }
      \cup (IF {} \in highs THEN { (nb \ lowsure) \ u : u \in SUBSET lowunsure } ELSE {})

HigherTierSets(F, g, r, x, sym) ==
  { {x} \cup IF ~sym THEN V
             ELSE V \cup UNION { Contained(QSet(F, y)) : y \in { z \in V : z < F.n /\ x \in Contained(QSet(F, z)) } }
    : V \in TierChoices(g, r, x) }

AboveAverage(g, r) ==
  LET sum == FoldLeft(LAMBDA a, b : a + b, 0, r)
      n == Len(g)
      slack == IF Certain(g) THEN 0 ELSE n * Slack
      sure == { x \in GNodes(g) : r[x + 1] > (sum + slack) \div n }
      maybe == IF Certain(g) THEN {} ELSE { x \in GNodes(g) : r[x + 1] <= (sum + slack) \div n /\ r[x + 1] >= CeilDiv(sum - slack, n) }
  IN  [sure |-> sure, maybe |-> maybe]

\* q: quorum set of x before, q2: after; F: the FBAS before
PolicyOk(pol, r, F, x, q, q2) ==
  CASE pol.kind = "dummy"      -> q2 = q
    [] pol.kind = "super_safe" -> IsFlat(q2, Nodes(F), F.n)
    [] pol.kind = "ideal"      -> IsFlat(q2, Nodes(F), T67(F.n))
    [] pol.kind = "random" ->
         LET old  == IF q.v = <<>> THEN {x} ELSE SetOf(q.v)
             want == IF pol.size < F.n THEN pol.size ELSE F.n
             acts == Cardinality(old) < pol.size \/ Fresh(q)
             size == IF acts /\ want > Cardinality(old) THEN want ELSE Cardinality(old)
             t    == IF pol.threshold > 0 THEN pol.threshold ELSE T67(want)
         IN  /\ old \subseteq SetOf(q2.v) /\ SetOf(q2.v) \subseteq Nodes(F) \cup old
             /\ Cardinality(SetOf(q2.v)) = size /\ NoDups(q2.v) /\ q2.i = q.i
             /\ q2.t = IF acts THEN t ELSE q.t
             \* nodes of weight 0 are never chosen
             /\ \A y \in SetOf(q2.v) \ old : y + 1 \in DOMAIN pol.weights => pol.weights[y + 1] > 0
    [] pol.kind = "neighbors" ->
         IF x \in ConnectedNodes(pol.g) /\ Fresh(q)
         THEN LET V == SetOf(pol.g[x + 1]) \cup {x} IN IsFlat(q2, V, Threshold(Cardinality(V), pol.rel))
         ELSE q2 = q
    [] pol.kind = "higher_tier" ->
         IF x \notin ConnectedNodes(pol.g) THEN q2 = q
         ELSE \E V \in HigherTierSets(F, pol.g, r, x, pol.sym) :
                IsFlat(q2, V, Threshold(Cardinality(V), pol.rel))
    [] pol.kind = "global_rank" ->
         LET A == AboveAverage(pol.g, r)
             V == SetOf(q2.v)
             configured == /\ A.sure \subseteq V /\ V \subseteq A.sure \cup A.maybe
                           /\ IsFlat(q2, V, Threshold(Cardinality(V), pol.rel))
         IN  IF x \notin ConnectedNodes(pol.g) \/ ~Fresh(q) THEN q2 = q
             \* nodes that are only linked to: left open
             ELSE IF pol.g[x + 1] = <<>> THEN q2 = q \/ configured
             ELSE configured
=============================================================================
