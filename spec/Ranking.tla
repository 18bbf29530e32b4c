------------------------------ MODULE Ranking ------------------------------
(***************************************************************************)
(* The rank of the nodes of an FBAS: trust starts in equal shares and      *)
(* flows for a fixed number of rounds; in each a node passes what it has   *)
(* in equal parts to the nodes that its quorum set mentions at any level.  *)
(* Shares are fixed-point numbers with unit 1 / Whole.                     *)
(***************************************************************************)
EXTENDS FBAS
Whole  == 100000000
Rounds == 100

Links(F)     == { <<x, y>> \in Nodes(F) \X Nodes(F) : y \in Trusts(F, x) }
Trusters(F)  == [y \in Nodes(F) |-> { x \in Nodes(F) : y \in Trusts(F, x) }]
Parts(F)     == [x \in Nodes(F) |-> Cardinality(Trusts(F, x))]
RECURSIVE Flow(_, _, _, _)
Flow(in, parts, r, k) ==
  IF k = 0 THEN r
  ELSE Flow(in, parts,
            TLCEval([y \in DOMAIN in |-> FoldSet(LAMBDA x, acc : acc + (r[x] + parts[x] \div 2) \div parts[x], 0, in[y])]),
            k - 1)
Ranks_(F) == Flow(TLCEval(Trusters(F)), TLCEval(Parts(F)), [x \in Nodes(F) |-> Whole \div F.n], Rounds)
\* half a unit is lost at most on each link in each round, one at the start
Tolerance(F) == 1 + F.n + (Rounds * Cardinality(Links(F))) \div 2
IsRanking(F, r) ==
  /\ Len(r) = F.n
  /\ F.n > 0 => LET R == Ranks_(F)
                    tol == Tolerance(F)
                IN  \A x \in Nodes(F) : R[x] - r[x + 1] <= tol /\ r[x + 1] - R[x] <= tol
\* some nodes W that mention only each other: they alone, with all the trust; the others have none
RanksWithin(F, W) ==
  Flow(TLCEval([y \in W |-> { x \in W : y \in Trusts(F, x) }]), TLCEval(Parts(F)), [x \in W |-> Whole \div Cardinality(W)], Rounds)
Closed(F, W) == \A x \in W : Trusts(F, x) \subseteq W
IsRankingWithin(F, W, r) ==
  /\ Len(r) = F.n
  /\ \A x \in Nodes(F) \ W : r[x + 1] = 0
  /\ Closed(F, W) => LET R == TLCEval(RanksWithin(F, W))
                         tol == Tolerance(F)
                     IN  \A x \in W : R[x] - r[x + 1] <= tol /\ r[x + 1] - R[x] <= tol
\* W in the order of these scores (rounded: two scores that differ by the last digit may be in any order)
IsOrder(W, r, order) ==
  /\ Len(order) = Cardinality(W) /\ SetOf(order) = W
  /\ \A k \in 1..(Len(order) - 1) : r[order[k] + 1] >= r[order[k + 1] + 1]
\* who is not trusted at all gets nothing
Untrusted(F) == { y \in Nodes(F) : \A x \in Nodes(F) : y \notin Trusts(F, x) }
=============================================================================
