------------------------------ MODULE MCChance ------------------------------
(* A walk s through a random process next to the distribution D of all walks  *)
(* of its length.                                                              *)
EXTENDS Chance
CONSTANTS Big
VARIABLES s, D, s0
vars == <<s, D, s0>>

Draws == { DrawStart(0..3, w, k) : w \in { <<>>, <<1, 2, 3, 4>>, <<0, 5>>, <<2, 2, 0, 1>> }, k \in 0..2 }
Attach == { AttachStart(n, m0, m) : n \in 3..(IF Big THEN 6 ELSE 5), m0 \in {2, 3}, m \in {1, 2} }
Orders == { OrderStart(n, t) : n \in 1..3, t \in 1..2 } \cup { OrderStart(4, 1) }
Rewires == { RewireStart(p[1], p[2], b) : p \in {<<4, 2>>, <<5, 2>>} \cup {<<5, 4>>}, b \in {0, 1, 4} }

Init == /\ s0 \in Draws \cup Attach \cup Orders \cup Rewires
        /\ s = s0 /\ D = Point(s0)
Step == /\ \E c \in Options(s) : s' = c.next
        /\ D' = Push(D) /\ s0' = s0
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

Total == FoldSet(LAMBDA x, acc : acc + D[x], 0, DOMAIN D)
\* nothing is lost but by rounding
Conserved == Total <= Mass /\ Total >= Mass - (IF s0.kind = "rewire" THEN Mass \div 5 ELSE 320 * Cardinality(DOMAIN D))
\* every walk is accounted for, and with a fair share
Supported == s \in DOMAIN D /\ D[s] > 0
GraphOf(n, links) == [x \in 1..n |-> SetToSeq({ y \in 0..(n - 1) : {x - 1, y} \in links /\ y # x - 1 })]
AtEnd == Options(s) = {} =>
  CASE s.kind = "draw"   -> /\ Cardinality(s.out) = s0.left
                            /\ \A x \in s.out : WeightIn(s.w, x) > 0
    [] s.kind = "attach" -> s.n >= s0.at => ScaleFree(GraphOf(s.n, s.out), s.n, s0.at, s.m)
    [] s.kind = "order"  -> \A j \in DOMAIN s.out : NoDups(s.out[j]) /\ SetOf(s.out[j]) = 0..(s.n - 1)
    [] s.kind = "rewire" -> /\ SmallWorld(GraphOf(s.n, s.out), s.n, s.k)
                            /\ s.b = 0 => Links(GraphOf(s.n, s.out)) = RingLinks(s.n, s.k)
\* orders are equally likely, and so are nodes of equal weight
Fair == Over(D) =>
  /\ s0.kind = "order" => \A a, b \in DOMAIN D : D[a] - D[b] \in -8..8
  /\ s0.kind = "draw" => \A x, y \in s0.from : WeightIn(s0.w, x) = WeightIn(s0.w, y) =>
       LET share(z) == FoldSet(LAMBDA t, acc : acc + D[t], 0, { t \in DOMAIN D : z \in t.out })
       IN  share(x) - share(y) \in -32..32
\* the first draw goes by weight
FirstDraw == (s0.kind = "draw" /\ s0.left = 1 /\ Over(D)) =>
  LET W == FoldSet(LAMBDA x, acc : acc + WeightIn(s0.w, x), 0, s0.from)
  IN  \A t \in DOMAIN D : \A x \in t.out : D[t] = (Mass * WeightIn(s0.w, x)) \div W
Inv == Conserved /\ Supported /\ AtEnd /\ Fair /\ FirstDraw
Ends == <>(Options(s) = {})
=============================================================================
