------------------------------ MODULE Finders ------------------------------
(***************************************************************************)
(* Searching instead of enumerating: minimal quorums by branch and bound,  *)
(* minimal blocking sets as minimal transversals, cluster by cluster.      *)
(* MCFinders checks that this gives what the definitions in FBAS.tla give  *)
(* (whatever the order of candidates); trace specifications use it for     *)
(* FBASs that are too big for enumerating all subsets.                     *)
(***************************************************************************)
EXTENDS FBAS

\* Is the frame (sel, avail) worth looking at: can there be a minimal quorum Q, sel \subseteq Q \subseteq avail?
\* What a frame (sel, avail), avail = Greatest(F, avail), amounts to:
Dead(F, sel, avail)  == ~(sel \subseteq avail) \/ avail = {} \/ (Greatest(F, sel) # {} /\ ~IsMinQuorum(F, sel))
Found(F, sel, avail) == ~Dead(F, sel, avail) /\ IsQuorum(F, sel)

\* a candidate that helps a member of sel, if there is one
Candidate(F, sel, avail) ==
  LET open == { x \in sel : ~Slice(QSet(F, x), sel) }
      near == UNION { Trusts(F, x) : x \in open } \cap (avail \ sel)
  IN  IF near # {} THEN Min(near) ELSE Min(avail \ sel)

RECURSIVE Search(_, _, _)
Search(F, sel, from) ==
  LET avail == Greatest(F, from)
  IN  IF Dead(F, sel, avail) THEN {}
      ELSE IF IsQuorum(F, sel) THEN {sel}
      ELSE LET x == Candidate(F, sel, avail)
           IN  Search(F, sel \cup {x}, avail) \cup Search(F, sel, avail \ {x})

\* components that contain a quorum
Clusters(F) == { C \in SCCs(F, Sat(F)) : ContainsQuorum(F, C) }

MinQuorumsFast(F) == UNION { Search(F, {}, C) : C \in Clusters(F) }

\* minimal transversals (hitting sets) of a sequence of sets
RECURSIVE Transversals(_, _)
Transversals(T, ms) ==
  IF ms = <<>> THEN T
  ELSE LET m    == ms[1]
           keep == { t \in T : t \cap m # {} }
           ext  == UNION { { t \cup {x} : x \in m } : t \in T \ keep }
       IN  Transversals(keep \cup { e \in ext : \A k \in keep : ~(k \subseteq e) }, Tail(ms))
MinBlockingFrom(mq) == IF mq = {} THEN {} ELSE Transversals({{}}, SetToSeq(mq))

\* enumerate subsets while that is cheap
Small == 8
MQ(F)  == IF Cardinality(Sat(F)) <= Small THEN MinQuorums(F) ELSE MinQuorumsFast(F)
MBS(F) == IF Cardinality(Sat(F)) <= Small THEN MinBlocking(F) ELSE MinBlockingFrom(MinQuorumsFast(F))
=============================================================================
