------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* An FBAS as an object that is built, changed, restricted, stored and     *)
(* copied: a sequence of nodes, each with a public key and a quorum set.   *)
(* Every operation is an operator from node sequences to node sequences,   *)
(* so that the same text serves the design model (MCBuilder), enumerates   *)
(* histories and judges what the real object does (TraceC27).              *)
(***************************************************************************)
EXTENDS QSetForm

Keys(N)      == [k \in DOMAIN N |-> N[k].key]
QSets(N)     == [k \in DOMAIN N |-> N[k].q]
AsFbas(N)    == [n |-> Len(N), q |-> QSets(N)]
Lookup(N, x) == IF x \in SetOf(Keys(N)) THEN IdOf(Keys(N), x) ELSE -1
Generic(N)   == "n" \o ToString(Len(N))     \* the name the next generic node gets

WellFormed(N) == NoDups(Keys(N))
\* a node without quorum set has one that is never satisfied
Fresh(n)     == [k \in 1..n |-> [key |-> "n" \o ToString(k - 1), q |-> EmptyQSet]]
CanAdd(N)    == Generic(N) \notin SetOf(Keys(N))
Add(N, q)    == Append(N, [key |-> Generic(N), q |-> q])
Swap(N, x, q) == [N EXCEPT ![x + 1].q = q]

\* the ids that stay, in order: node x becomes node Ranks(keep)[x]
KeptKeys(N, keep) == LET s == SetToSortSeq(keep, LAMBDA a, b : a < b)
                     IN  [k \in DOMAIN s |-> N[s[k] + 1].key]
\* some subsets of a big set of nodes: with one node left out, the first ones, what nodes depend on
Samples(N, keep) == {keep} \cup { keep \ {x} : x \in keep }
                           \cup { { y \in keep : y <= x } : x \in keep }
                           \cup { { y \in keep : y >= x } : x \in keep }
                           \cup { Contained(N[x + 1].q) \cap keep : x \in keep }
\* M may be N restricted to `keep`: the keys are determined, the quorum sets up to their meaning
IsCutTo(N, keep, M) ==
  /\ Keys(M) = KeptKeys(N, keep)
  /\ IF Cardinality(keep) <= 8 THEN IsProjection(AsFbas(N), keep, AsFbas(M), Ranks(keep))
     ELSE IsProjectionOn(AsFbas(N), keep, AsFbas(M), Ranks(keep), Samples(N, keep))
\* M may be N stored and loaded again
IsReload(N, M) == Keys(M) = Keys(N) /\ SameQSets(QSets(N), QSets(M))

MustEqual(N, M)    == N = M
MustNotEqual(N, M) == Keys(N) # Keys(M) \/ ~SameQSets(QSets(N), QSets(M))
=============================================================================
