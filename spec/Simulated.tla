----------------------------- MODULE Simulated -----------------------------
(***************************************************************************)
(* What a simulation that starts from unconfigured nodes ends with, for     *)
(* every policy: each node is reevaluated at the final size, until nothing  *)
(* changes or for as many rounds as there are nodes. The quorum sets that   *)
(* module Qsc allows for single steps come to these.                        *)
(***************************************************************************)
EXTENDS Qsc

\* the symmetry-enforcing policy: neighbours' sets are copied, so sets only grow; the least fixed point
SymStep(conn, V, S) ==
  TLCEval([x \in DOMAIN S |-> IF x \notin conn THEN {}
             ELSE {x} \cup V[x] \cup UNION { S[y] : y \in { z \in V[x] \cap DOMAIN S : x \in S[z] } }])
RECURSIVE SymSets(_, _, _, _)
SymSets(conn, V, S, k) == IF k = 0 THEN S ELSE SymSets(conn, V, SymStep(conn, V, S), k - 1)

FinalOk(pol, r, F) ==
  CASE pol.kind = "super_safe" -> \A x \in Nodes(F) : IsFlat(QSet(F, x), Nodes(F), F.n)
    [] pol.kind = "ideal" -> \A x \in Nodes(F) : IsFlat(QSet(F, x), Nodes(F), T67(F.n))
    [] pol.kind = "random" ->
         LET want == IF pol.size < F.n THEN pol.size ELSE F.n
             t == IF pol.threshold > 0 THEN pol.threshold ELSE T67(want)
         IN  \A x \in Nodes(F) :
               LET V == SetOf(QSet(F, x).v)
               IN  /\ IsFlat(QSet(F, x), V, t) /\ x \in V /\ Cardinality(V) = want /\ V \subseteq Nodes(F)
                   /\ pol.fame => \A y \in V \ {x} : InDegree(pol.g, y) > 0
    [] pol.kind = "neighbors" ->
         \A x \in Nodes(F) :
           LET V == SetOf(pol.g[x + 1]) \cup {x}
           IN  IF x \in ConnectedNodes(pol.g) THEN IsFlat(QSet(F, x), V, Threshold(Cardinality(V), pol.rel))
               ELSE Fresh(QSet(F, x))
    [] pol.kind = "higher_tier" ->
         LET conn == ConnectedNodes(pol.g)
             choices == [x \in Nodes(F) |-> IF x \in conn THEN TierChoices(pol.g, r, x) ELSE {{}}]
             is(x, V) == IF x \in conn THEN IsFlat(QSet(F, x), V, Threshold(Cardinality(V), pol.rel)) ELSE Fresh(QSet(F, x))
         IN  IF ~pol.sym THEN \A x \in Nodes(F) : \E V \in choices[x] : is(x, {x} \cup V)
             ELSE IF \A x \in Nodes(F) : Cardinality(choices[x]) = 1
             THEN LET V == TLCEval([x \in Nodes(F) |-> CHOOSE U \in choices[x] : TRUE])
                      S == SymSets(conn, V, [x \in Nodes(F) |-> {}], F.n)
                  IN  IF SymStep(conn, V, S) = S THEN \A x \in Nodes(F) : is(x, S[x])
                      \* not settled within the number of rounds: at least what is certain
                      ELSE \A x \in Nodes(F) : S[x] \subseteq SetOf(QSet(F, x).v)
             ELSE \A x \in Nodes(F) : \E U \in choices[x] : U \subseteq SetOf(QSet(F, x).v)
    [] pol.kind = "global_rank" ->
         \A x \in Nodes(F) : PolicyOk(pol, r, F, x, EmptyQSet, QSet(F, x))
=============================================================================
