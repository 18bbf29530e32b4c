------------------------------ MODULE Counting ------------------------------
(***************************************************************************)
(* Systems whose results are too many to be listed by TLC, but known in    *)
(* closed form: N organizations of m nodes each (nodes without             *)
(* organizations: m = 1), every node wants s nodes of each of T            *)
(* organizations. All minimal quorums, blocking and splitting sets take    *)
(* the same number of nodes from the same number of organizations.         *)
(* p = [orgs |-> sequence of sequences of nodes, t |-> T, s |-> s]          *)
(* MCCounting checks the closed forms against the definitions.             *)
(***************************************************************************)
EXTENDS Finders

CoreOf(p) == UNION { SetOf(p.orgs[k]) : k \in DOMAIN p.orgs }
N_(p) == Len(p.orgs)
M_(p) == Len(p.orgs[1])
\* how such a quorum set may be written
Plain(p) == IF M_(p) = 1 THEN [t |-> p.t, v |-> [k \in DOMAIN p.orgs |-> p.orgs[k][1]], i |-> <<>>]
            ELSE [t |-> p.t, v |-> <<>>, i |-> [k \in DOMAIN p.orgs |-> [t |-> p.s, v |-> p.orgs[k], i |-> <<>>]]]
Itself(p, x) == [Plain(p) EXCEPT !.t = @ + 1, !.v = Append(@, x)]   \* the node itself, in addition
Wrapped(p) == [t |-> 1, v |-> <<>>, i |-> <<Plain(p)>>]
Nobody == [t |-> 1, v |-> <<>>, i |-> <<>>]
Writings(p, x) == {Plain(p), Itself(p, x), Wrapped(p)}
\* other nodes hang on these or are not satisfiable
IsCounted(F, p) ==
  /\ \A k \in DOMAIN p.orgs : Len(p.orgs[k]) = M_(p) /\ Cardinality(SetOf(p.orgs[k])) = M_(p)
  /\ \A j, k \in DOMAIN p.orgs : j # k => SetOf(p.orgs[j]) \cap SetOf(p.orgs[k]) = {}
  /\ p.t \in 1..N_(p) /\ p.s \in 1..M_(p)
  /\ CoreOf(p) \subseteq 0..(F.n - 1)
  /\ \A x \in 0..(F.n - 1) : QSet(F, x) \in (IF x \in CoreOf(p) THEN Writings(p, x) ELSE {Plain(p), Nobody})

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE (Binom(n, k - 1) * (n - k + 1)) \div k
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
\* sets that take `each` nodes of each of `orgs` organizations
Shape(orgs, each) == [orgs |-> orgs, each |-> each]
NumberOf(p, f) == Binom(N_(p), f.orgs) * Pow(Binom(M_(p), f.each), f.orgs)
QuorumShape(p)   == Shape(p.t, p.s)
BlockingShape(p) == Shape(N_(p) - p.t + 1, M_(p) - p.s + 1)
CountedQI(p)     == 2 * p.t > N_(p) /\ 2 * p.s > M_(p)
\* (with intersecting quorums, of which there is more than one)
SplittingShape(p) == Shape(2 * p.t - N_(p), 2 * p.s - M_(p))
HasSplitting(p) == CountedQI(p) /\ NumberOf(p, QuorumShape(p)) > 1

HasShape(p, f, S) ==
  /\ S \subseteq CoreOf(p)
  /\ LET taken == [k \in DOMAIN p.orgs |-> Cardinality(S \cap SetOf(p.orgs[k]))]
     IN  /\ \A k \in DOMAIN taken : taken[k] \in {0, f.each}
         /\ Cardinality({ k \in DOMAIN taken : taken[k] # 0 }) = f.orgs
\* what is known about a long list of sets: their number, how many of them differ, for each set how many nodes of how many
\* organizations it has (`profiles`: all that occur, others: nodes of no organization), some of them
ListOk(p, f, e) ==
  LET number == NumberOf(p, f)
      size == f.orgs * f.each
  IN  /\ e.len = number /\ e.distinct = number
      /\ e.others = 0
      /\ e.profiles = << [k \in 1..f.orgs |-> f.each] >>
      /\ e.min = size /\ e.max = size /\ e.mean = 10000 * size
      /\ e.histogram = [k \in 1..(size + 1) |-> IF k = size + 1 THEN number ELSE 0]
      /\ e.describe.n = number /\ e.describe.min = size /\ e.describe.max = size /\ e.describe.mean = 10000 * size
      /\ e.describe.hist = e.histogram /\ e.describe.nodes = Cardinality(CoreOf(p))
      /\ SetOf(e.involved) = CoreOf(p) /\ Len(e.involved) = Cardinality(CoreOf(p))
      /\ \A k \in DOMAIN e.some : HasShape(p, f, SetOf(e.some[k]))
NoneOk(e) == e.len = 0 /\ e.distinct = 0 /\ e.involved = <<>>
\* the list of all minimal quorums, blocking sets, splitting sets
CountedOk(F, p, e) ==
  /\ IsCounted(F, p)
  /\ CASE e.what = "mq"  -> ListOk(p, QuorumShape(p), e)
       [] e.what = "mbs" -> ListOk(p, BlockingShape(p), e)
       [] e.what = "mss" -> IF HasSplitting(p) THEN ListOk(p, SplittingShape(p), e) ELSE (CountedQI(p) => NoneOk(e))
=============================================================================
