------------------------------- MODULE FBAS -------------------------------
(***************************************************************************)
(* The meaning of a Federated Byzantine Agreement System (FBAS): quorum    *)
(* slices, quorums, satisfiability, minimal quorums, blocking and          *)
(* splitting sets, the trust graph, symmetric clusters, projections.       *)
(*                                                                         *)
(* An FBAS is a record [n |-> number of nodes, q |-> sequence of quorum    *)
(* sets]; node x (0-based, as in the code) has the quorum set q[x+1].      *)
(* A quorum set is [t |-> threshold, v |-> sequence of node ids,           *)
(* i |-> sequence of quorum sets].                                         *)
(*                                                                         *)
(* Everything here is written from the definitions (Mazieres; Lachowski;   *)
(* Florian et al.), never from the search algorithms of the code: the      *)
(* algorithms are specified separately (Finders.tla) and model-checked     *)
(* against these definitions.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Nodes(F)    == 0..(F.n - 1)
QSet(F, x)  == F.q[x + 1]
SetOf(s)    == { s[k] : k \in DOMAIN s }          \* sequence -> set
SetsOf(ss)  == { SetOf(ss[k]) : k \in DOMAIN ss }  \* sequence of sequences -> set of sets
NoDups(s)   == Cardinality(SetOf(s)) = Len(s)
\* a sequence of sequences that lists a set of sets without repetition
Lists(ss)   == /\ \A k \in DOMAIN ss : NoDups(ss[k])
               /\ Cardinality(SetsOf(ss)) = Len(ss)
EmptyQSet   == [t |-> 0, v |-> <<>>, i |-> <<>>]

-----------------------------------------------------------------------------
(* Quorum slices and quorums *)

RECURSIVE Slice(_, _)
Slice(q, S) ==
  /\ q.t > 0
  /\   Cardinality({k \in DOMAIN q.v : q.v[k] \in S})
     + Cardinality({k \in DOMAIN q.i : Slice(q.i[k], S)}) >= q.t

RECURSIVE Contained(_)
Contained(q) == SetOf(q.v) \cup UNION { Contained(q.i[k]) : k \in DOMAIN q.i }

RECURSIVE Mentions(_)   \* number of validator entries, with repetitions
Mentions(q) == Len(q.v) + FoldLeft(LAMBDA acc, x : acc + Mentions(x), 0, q.i)

HasDups(q) == Mentions(q) # Cardinality(Contained(q))

IsQuorum(F, S) == S # {} /\ \A x \in S : Slice(QSet(F, x), S)

\* The union of all quorums that are subsets of S (quorums are closed under
\* union), as a greatest fixpoint.
RECURSIVE Greatest(_, _)
Greatest(F, S) ==
  LET T == { x \in S : Slice(QSet(F, x), S) }
  IN  IF T = S THEN S ELSE Greatest(F, T)

Sat(F)   == Greatest(F, Nodes(F))
Unsat(F) == Nodes(F) \ Sat(F)
ContainsQuorum(F, S) == Greatest(F, S) # {}
Quorums(F) == { S \in SUBSET Sat(F) : IsQuorum(F, S) }

-----------------------------------------------------------------------------
(* Minimal quorums, intersection, blocking, splitting, top tier *)

MinimalSets(SS) == { A \in SS : \A B \in SS : ~(B \subseteq A /\ B # A) }

IsMinQuorum(F, S) ==
  /\ IsQuorum(F, S)
  /\ \A x \in S : Greatest(F, S \ {x}) = {}

MinQuorums(F) == LET sat == Sat(F) IN { S \in SUBSET sat : IsMinQuorum(F, S) }

Intersecting(SS) == \A A, B \in SS : A \cap B # {}
\* every two quorums intersect, and there is a quorum
QIof(mq) == mq # {} /\ Intersecting(mq)
HasQI(F) == QIof(MinQuorums(F))

Blocking(F, sat, B) == Greatest(F, sat \ B) = {}
IsMinBlocking(F, sat, B) ==
  Blocking(F, sat, B) /\ \A x \in B : ~Blocking(F, sat, B \ {x})
\* Convention of the code: no quorums, no minimal blocking sets.
MinBlocking(F) ==
  LET sat == Sat(F)
  IN  IF sat = {} THEN {} ELSE { B \in SUBSET sat : IsMinBlocking(F, sat, B) }

\* Nodes that can make two distinct quorums intersect only in Byzantine nodes.
MinSplittingOf(mq) ==
  MinimalSets({ p[1] \cap p[2] : p \in { r \in mq \X mq : r[1] # r[2] } })
\* Convention of the code: without quorum intersection the empty set splits.
SplittingAnswerOf(mq) == IF QIof(mq) THEN MinSplittingOf(mq) ELSE { {} }

TopTierOf(mq) == UNION mq

-----------------------------------------------------------------------------
(* The trust graph *)

Trusts(F, x) == Contained(QSet(F, x))

RECURSIVE Closure(_, _, _)
Closure(succ, front, seen) ==
  LET new == UNION { succ[x] : x \in front } \ seen
  IN  IF new = {} THEN seen ELSE Closure(succ, new, seen \cup new)

\* nodes reachable from x (including x) along edges inside W
ReachMap(F, W) ==
  LET succ == TLCEval([x \in W |-> Trusts(F, x) \cap W])
  IN  TLCEval([x \in W |-> Closure(succ, {x}, {x})])
\* strongly connected components of the trust graph induced by W
SCCs(F, W) ==
  LET R == TLCEval(ReachMap(F, W))
  IN  { { y \in W : y \in R[x] /\ x \in R[y] } : x \in W }

\* Nodes in a strongly connected component that contains a quorum. Whether
\* connections may lead through unsatisfiable nodes is left open: both
\* readings are bounds.
RelevantMin(F) ==
  UNION { C \in SCCs(F, Sat(F)) : ContainsQuorum(F, C) }
RelevantMax(F) ==
  LET sat == Sat(F)
  IN  UNION { D \in { C \cap sat : C \in SCCs(F, Nodes(F)) } : ContainsQuorum(F, D) }

-----------------------------------------------------------------------------
(* Symmetric clusters *)

\* Quorum sets shared by exactly the nodes they contain, forming a quorum.
SymClusters(F) ==
  { q \in SetOf(F.q) :
      LET C == Contained(q)
      IN  /\ C # {} /\ C \subseteq Nodes(F)
          /\ \A x \in C : QSet(F, x) = q
          /\ Slice(q, C) }

SymTopTier(F) ==   \* set with at most one element
  LET sc == SymClusters(F)
  IN  IF Cardinality(sc) = 1
         /\ \A q \in sc : ~ContainsQuorum(F, Nodes(F) \ Contained(q))
      THEN sc ELSE {}

-----------------------------------------------------------------------------
(* Projections *)

\* i-th smallest element of keep gets id i-1
Ranks(keep) == [x \in keep |-> Cardinality({ y \in keep : y < x })]
Image(f, S) == { f[x] : x \in S }
Images(f, SS) == { Image(f, S) : S \in SS }

\* G is F restricted to `keep` under the bijection m : keep -> Nodes(G):
\* exactly the same sets are quorums.
IsProjectionOn(F, keep, G, m, SS) ==
  /\ Image(m, keep) = Nodes(G)
  /\ \A S \in SS : IsQuorum(F, S) <=> IsQuorum(G, Image(m, S))
  /\ \A x \in keep : \A S \in SS :
        Slice(QSet(F, x), S) <=> Slice(QSet(G, m[x]), Image(m, S))
IsProjection(F, keep, G, m) == IsProjectionOn(F, keep, G, m, SUBSET keep)
\* for many nodes: on some sets that are given
IsProjectionProbed(F, keep, G, m, probe) ==
  IF probe = <<>> THEN IsProjection(F, keep, G, m)
  ELSE IsProjectionOn(F, keep, G, m, {keep} \cup { SetOf(probe[k]) \cap keep : k \in DOMAIN probe })
=============================================================================
