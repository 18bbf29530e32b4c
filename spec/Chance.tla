------------------------------- MODULE Chance -------------------------------
(***************************************************************************)
(* Random choices. A random process is a state machine whose steps carry   *)
(* weights: Options(s) is the set of [w, next] of state s, {} if s is      *)
(* final. Push moves probability mass (Mass units in all) along one step,  *)
(* Final all the way, which gives the exact distribution of outcomes (up   *)
(* to rounding). MCChance walks through the same processes at random and   *)
(* checks that walks and distributions agree; TraceC30 compares recorded   *)
(* frequencies with the distributions.                                     *)
(***************************************************************************)
EXTENDS Graphs

Mass == 100000

-----------------------------------------------------------------------------
(* Processes *)

\* k times, one more of the nodes in `from`, by weight w[x + 1] (1 for nodes that have none)
DrawStart(from, w, k) == [kind |-> "draw", from |-> from, w |-> w, left |-> k, out |-> {}]
WeightIn(w, x) == IF x + 1 \in DOMAIN w THEN w[x + 1] ELSE 1
DrawOptions(s) ==
  IF s.left = 0 THEN {}
  ELSE { [w |-> WeightIn(s.w, x), next |-> [s EXCEPT !.left = @ - 1, !.from = @ \ {x}, !.out = @ \cup {x}]] :
           x \in { y \in s.from : WeightIn(s.w, y) > 0 } }

\* Barabasi-Albert: out is the set of links {x, y}; node `at` looks for `left` more nodes
Degree(links, x) == Cardinality({ l \in links : x \in l })
AttachStart(n, m0, m) == [kind |-> "attach", n |-> n, m |-> m, at |-> m0, left |-> m, taken |-> {},
                          out |-> { {x, y} : <<x, y>> \in { p \in (0..(m0 - 1)) \X (0..(m0 - 1)) : p[1] # p[2] } }]
AttachOptions(s) ==
  IF s.at >= s.n THEN {}
  ELSE { [w |-> Degree(s.out, y),
          next |-> IF s.left > 1
                   THEN [s EXCEPT !.left = @ - 1, !.taken = @ \cup {y}, !.out = @ \cup {{s.at, y}}]
                   ELSE [s EXCEPT !.left = s.m, !.taken = {}, !.at = @ + 1, !.out = @ \cup {{s.at, y}}]] :
           y \in { z \in (0..(s.at - 1)) \ s.taken : Degree(s.out, z) > 0 } }

\* one after the other, in any order; `times` times
OrderStart(n, times) == [kind |-> "order", n |-> n, left |-> times, from |-> 0..(n - 1), out |-> << <<>> >>]
OrderOptions(s) ==
  IF s.left = 0 THEN {}
  ELSE { [w |-> 1,
          next |-> LET o == [s.out EXCEPT ![Len(s.out)] = Append(@, x)]
                   IN  IF Cardinality(s.from) > 1 THEN [s EXCEPT !.from = @ \ {x}, !.out = o]
                       ELSE [s EXCEPT !.from = 0..(s.n - 1), !.left = @ - 1,
                                      !.out = IF s.left > 1 THEN Append(o, <<>>) ELSE o]] :
           x \in s.from }

\* Watts-Strogatz: link number `at` of the lattice (node by node) is kept (weight 4 - b) or gets another end (weight b)
Lattice(n, k) == [j \in 0..(n * (k \div 2) - 1) |-> LET x == j \div (k \div 2) IN <<x, (x + (j % (k \div 2)) + 1) % n>>]
RewireStart(n, k, b) == [kind |-> "rewire", n |-> n, k |-> k, b |-> b, at |-> 0, end |-> -1,
                         out |-> { {Lattice(n, k)[j][1], Lattice(n, k)[j][2]} : j \in DOMAIN Lattice(n, k) }]
RewireOptions(s) ==
  IF s.at >= s.n * (s.k \div 2) THEN {}
  ELSE LET l == Lattice(s.n, s.k)[s.at]
           free == { y \in 0..(s.n - 1) : y # l[1] /\ {l[1], y} \notin s.out }
       IN  IF s.end = -1
           THEN { c \in { [w |-> 4 - s.b, next |-> [s EXCEPT !.at = @ + 1]],
                          [w |-> s.b, next |-> IF free = {} THEN [s EXCEPT !.at = @ + 1] ELSE [s EXCEPT !.end = 0]] } : c.w > 0 }
           ELSE { [w |-> 1, next |-> [s EXCEPT !.end = -1, !.at = @ + 1, !.out = (@ \ {{l[1], l[2]}}) \cup {{l[1], y}}]] : y \in free }

Options(s) == CASE s.kind = "draw" -> DrawOptions(s)
                [] s.kind = "attach" -> AttachOptions(s)
                [] s.kind = "order" -> OrderOptions(s)
                [] s.kind = "rewire" -> RewireOptions(s)

-----------------------------------------------------------------------------
(* Distributions: functions from states to mass *)

Point(s) == [x \in {s} |-> Mass]
Over(D)  == \A s \in DOMAIN D : Options(s) = {}
Push(D) ==
  LET moves == UNION { LET C == Options(s)
                           W == FoldSet(LAMBDA c, acc : acc + c.w, 0, C)
                       IN  IF C = {} THEN { <<s, s, D[s]>> } ELSE { <<s, c.next, (D[s] * c.w) \div W>> : c \in C } : s \in DOMAIN D }
  IN  [t \in { m[2] : m \in moves } |-> FoldSet(LAMBDA m, acc : acc + m[3], 0, { m \in moves : m[2] = t })]
RECURSIVE Final(_)
Final(D) == IF Over(D) THEN D ELSE Final(TLCEval(Push(D)))
\* by outcome
Outcomes(D) == [o \in { s.out : s \in DOMAIN D } |-> FoldSet(LAMBDA s, acc : acc + D[s], 0, { s \in DOMAIN D : s.out = o })]

-----------------------------------------------------------------------------
(* Frequencies *)

\* c of n runs is what mass p makes likely: within eight standard deviations
Likely(c, n, p) ==
  LET e == (p * n) \div Mass
  IN  (c - e) * (c - e) <= 64 * ((e * (n - e)) \div n + 2)
\* counts: sequence of [o, k]
AllLikely(counts, n, P) ==
  LET seen == { counts[j].o : j \in DOMAIN counts }
  IN  /\ seen \subseteq DOMAIN P
      /\ \A j \in DOMAIN counts : Likely(counts[j].k, n, P[counts[j].o])
      /\ \A o \in DOMAIN P \ seen : Likely(0, n, P[o])
=============================================================================
