------------------------------ MODULE TraceC30 ------------------------------
(* Frequencies of outcomes of the real random choices, against the            *)
(* distributions of the random processes. st: the distribution.                *)
EXTENDS Chance, TraceBase

P == Case.p
Start == CASE Case.kind = "draw"    -> DrawStart((0..(P[1] - 1)) \ SetOf(Case.has), Case.w, P[2])
           [] Case.kind = "attach"  -> AttachStart(P[1], P[2], P[3])
           [] Case.kind = "order"   -> OrderStart(P[1], P[2])
           [] Case.kind = "shuffle" -> OrderStart(P[1], 1)
           [] OTHER -> DrawStart({}, <<>>, 0)

\* counts with outcomes as values
Links2(o) == { SetOf(o[k]) : k \in DOMAIN o }
AsValue(o) == CASE Case.kind = "draw" -> SetOf(o)
                [] Case.kind = "attach" -> Links2(o)
                [] OTHER -> o
Values == [k \in DOMAIN Ev.counts |-> [o |-> AsValue(Ev.counts[k].o), k |-> Ev.counts[k].k]]
EvCounted == /\ Observe("counted") /\ Case.kind \in {"draw", "attach", "order"}
             /\ AllLikely(Values, Ev.runs, st)
\* a renaming is an order (of the new names): what the graph looks like under each of them
RenamedBy(g, o) == [x \in 1..Len(g) |-> LET old == CHOOSE k \in 1..Len(g) : o[k] = x - 1
                                        IN  { o[y + 1] : y \in SetOf(g[old]) }]
EvShuffled == /\ Observe("counted") /\ Case.kind = "shuffle"
              /\ LET V == [k \in DOMAIN Ev.counts |-> [o |-> [x \in DOMAIN Ev.counts[k].o |-> SetOf(Ev.counts[k].o[x])], k |-> Ev.counts[k].k]]
                     Q == [h \in { RenamedBy(Case.g, o[1]) : o \in DOMAIN st } |->
                             FoldSet(LAMBDA o, acc : acc + st[o], 0, { o \in DOMAIN st : RenamedBy(Case.g, o[1]) = h })]
                 IN  AllLikely(V, Ev.runs, Q)

-----------------------------------------------------------------------------
(* Small-world graphs that are too big for exact distributions: sums over many of them.  *)
(* n nodes, k neighbors, rewiring probability b/4; all: links in all graphs               *)
\* c out of all, each with probability b/4; up to `more` of them otherwise
Around(k, all, b, more) ==
  LET e == (all * b) \div 4
      dev(d) == d <= 0 \/ d * d <= 64 * ((e * (4 - b)) \div 4 + 2)
  IN  dev(k - e - more) /\ dev(e - k)
EvRewired ==
  /\ Observe("rewired")
  /\ LET n == P[1] k == P[2] b == Case.beta
         all == Ev.graphs * n * (k \div 2)
         moved == all - Ev.kept
         fresh == (all * b) \div 4
         \* a link may be put where a link was taken away before
         back == (fresh * k) \div (n - k - 1) + 1
     IN  /\ Ev.near + Ev.far = moved
         /\ Around(Ev.kept, all, 4 - b, back)
         \* links of a node are moved independently of each other
         /\ k >= 4 => LET e == (Ev.graphs * n * b * b) \div 16
                          dev(d) == d <= 0 \/ d * d <= 64 * (e + 2)
                      IN  dev(Ev.both - e) /\ dev(e - Ev.both - back)
         \* ends are moved anywhere: as often far away as nearby ..
         /\ LET d == Ev.near - Ev.far IN d * d <= 64 * (moved + 2)
         \* .. and to every node equally often
         /\ \A x \in 1..n : LET d == Ev.degrees[x] - Ev.graphs * k
                            IN  d * d <= 64 * (2 * ((Ev.graphs * (k \div 2) * b) \div 4) + 4)

Next == \/ Load(Outcomes(Final(Point(Start))))
        \/ EvCounted
        \/ EvShuffled
        \/ EvRewired
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
