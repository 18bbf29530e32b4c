----------------------------- MODULE MCFinders -----------------------------
(* Branch and bound with an arbitrary order of frames and candidates: at any  *)
(* time every minimal quorum has been found or lies in exactly one open       *)
(* frame, nothing else is ever found, and the search ends. Also the theorems  *)
(* the fast searches, the restriction to clusters and the renumbering rely    *)
(* on, for every FBAS of the model file.                                      *)
EXTENDS Finders, Json, IOUtils

Systems == ndJsonDeserialize(IOEnv.MODEL_FILE)
VARIABLES k, mq, open, found
vars == <<k, mq, open, found>>
F == [n |-> Systems[k].n, q |-> Systems[k].q]

CONSTANT MaxDual  \* the dualities are checked on systems with at most so many satisfiable nodes
CONSTANT MaxSat   \* the search is explored on systems with at most so many satisfiable nodes
Init == /\ k \in { j \in DOMAIN Systems : Cardinality(Sat(Systems[j])) <= MaxSat }
        /\ mq = MinQuorums(F)
        /\ open = { <<{}, C>> : C \in Clusters(F) }
        /\ found = {}

Step(f) ==
  LET sel == f[1]
      avail == Greatest(F, f[2])
      rest == open \ {f}
  IN  IF Dead(F, sel, avail) THEN open' = rest /\ found' = found
      ELSE IF IsQuorum(F, sel) THEN open' = rest /\ found' = found \cup {sel}
      ELSE \E x \in avail \ sel :
             /\ open' = rest \cup {<<sel \cup {x}, avail>>, <<sel, avail \ {x}>>}
             /\ found' = found
\* one frame at a time, the candidate is arbitrary
Next == \/ open # {} /\ Step(CHOOSE f \in open : TRUE) /\ UNCHANGED <<k, mq>>
        \/ open = {} /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Covers(f, Q) == f[1] \subseteq Q /\ Q \subseteq f[2]
Inv ==
  /\ found \subseteq mq
  /\ \A Q \in mq : IF Q \in found THEN \A f \in open : ~Covers(f, Q)
                   ELSE Cardinality({ f \in open : Covers(f, Q) }) = 1
  /\ open = {} => found = mq
Ends == <>(open = {})

\* --- theorems, checked in the initial states ---
Theorems ==
  LET qs == Quorums(F)
      sat == Sat(F)
      mbs == MinBlocking(F)
      tt == UNION mq
      dual == Cardinality(sat) <= MaxDual
  IN  /\ sat = UNION qs                                            \* satisfiable = in some quorum
      /\ mq = MinimalSets(qs)
      /\ MinQuorumsFast(F) = mq
      /\ MinBlockingFrom(mq) = mbs
      /\ mq # {} /\ dual => MinimalSets({ B \in SUBSET sat : \A Q \in qs : Q \cap B # {} }) = mbs
      /\ UNION mbs = tt                                            \* the two ways to the top tier
      /\ mq # {} /\ dual => MinimalSets({ Q \in SUBSET tt : \A B \in mbs : Q \cap B # {} }) = mq   \* duality
      /\ \A Q \in mq : \E C \in SCCs(F, sat) : Q \subseteq C       \* minimal quorums lie in one component
      /\ tt \subseteq RelevantMin(F) /\ RelevantMin(F) \subseteq RelevantMax(F)
      /\ QIof(mq) <=> (qs # {} /\ \A A, B \in qs : A \cap B # {})  \* minimal quorums decide intersection
      /\ Cardinality(Clusters(F)) > 1 => ~QIof(mq)
      \* half of the nodes are enough when looking for disjoint quorums
      /\ (~QIof(mq) /\ mq # {}) => \E Q \in mq : 2 * Cardinality(Q) <= Cardinality(sat) /\ Greatest(F, sat \ Q) # {}
      /\ SymTopTier(F) # {} => \A q \in SymTopTier(F) : mq = MinimalSets({ S \in SUBSET Contained(q) : S # {} /\ Slice(q, S) })
      /\ \A x, y \in SymClusters(F) : x # y => Contained(x) \cap Contained(y) = {}
      \* minimal splitting sets are exactly the minimal sets whose removal can leave disjoint quorums
      /\ (QIof(mq) /\ Cardinality(mq) > 1) => MinSplittingOf(mq) = 
           MinimalSets({ S \in { p[1] \cap p[2] : p \in { p \in qs \X qs : ~(p[1] \subseteq p[2]) /\ ~(p[2] \subseteq p[1]) } } : S \subseteq tt })
\* the theorems alone, for bigger systems
\* (computed in a step, so that TLC spreads the systems over its workers)
TInit == k \in DOMAIN Systems /\ mq = {} /\ open = {} /\ found = {{}}
TNext == \/ found = {{}} /\ mq' = MinQuorums(F) /\ found' = {} /\ UNCHANGED <<k, open>>
         \/ found = {} /\ UNCHANGED vars
TInv == found = {} => Theorems
=============================================================================
