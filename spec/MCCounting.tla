----------------------------- MODULE MCCounting -----------------------------
(* The closed forms of Counting.tla against the definitions, for all systems   *)
(* of up to MaxNodes nodes.                                                    *)
EXTENDS Counting
CONSTANT MaxNodes
VARIABLES p, how, checked
vars == <<p, how, checked>>

Orgs(n, m) == [k \in 1..n |-> [j \in 1..m |-> m * (k - 1) + j - 1]]
Init == /\ \E n \in 1..MaxNodes, m \in 1..4 : n * m <= MaxNodes /\ \E t \in 1..n, s \in 1..m : p = [orgs |-> Orgs(n, m), t |-> t, s |-> s]
        /\ how \in {"plain", "itself", "wrapped", "more"}
        /\ checked = FALSE
Next == checked' = TRUE /\ UNCHANGED <<p, how>>
Size == Cardinality(CoreOf(p))
F == [n |-> Size + (IF how = "more" THEN 2 ELSE 0),
      q |-> [k \in 1..(Size + (IF how = "more" THEN 2 ELSE 0)) |->
               CASE k > Size + 1  -> Nobody
                 [] k = Size + 1  -> Plain(p)
                 [] how = "itself"  /\ k % 2 = 1 -> Itself(p, k - 1)
                 [] how = "wrapped" /\ k % 2 = 0 -> Wrapped(p)
                 [] OTHER -> Plain(p)]]
Are(SS, f) == Cardinality(SS) = NumberOf(p, f) /\ \A S \in SS : HasShape(p, f, S)
Closed == LET mq == TLCEval(MinQuorums(F))
          IN  /\ IsCounted(F, p)
              /\ Are(mq, QuorumShape(p))
              /\ Are(MinBlocking(F), BlockingShape(p))
              /\ TopTierOf(mq) = CoreOf(p)
              /\ QIof(mq) = (CountedQI(p) \/ Cardinality(mq) = 1)
              /\ HasSplitting(p) => Are(MinSplittingOf(mq), SplittingShape(p)) /\ UNION MinSplittingOf(mq) = CoreOf(p)
              /\ (CountedQI(p) /\ ~HasSplitting(p)) => SplittingAnswerOf(mq) = {}
Inv == checked => Closed
=============================================================================
