----------------------------- MODULE Experiment -----------------------------
(***************************************************************************)
(* The performance experiment: benchmark FBASs, what is to be measured, and *)
(* what its output file may contain. A task is <<size, run>>.               *)
(***************************************************************************)
EXTENDS Qsc, Results, Finders

\* node 0 lists itself once more, which changes nothing but keeps the FBAS from being symmetric
Twisted(n, q) == [n |-> n, q |-> [k \in 1..n |-> IF k = 1 THEN [q EXCEPT !.v = Append(@, 0), !.t = @ + 1] ELSE q]]
FlatBenchmark(n) == Twisted(n, [t |-> T67(n), v |-> [k \in 1..n |-> k - 1], i |-> <<>>])
OrgBenchmark(n) ==
  Twisted(n, [t |-> T67(n \div 3), v |-> <<>>,
              i |-> [k \in 1..(n \div 3) |-> [t |-> 2, v |-> <<3 * (k - 1), 3 * (k - 1) + 1, 3 * (k - 1) + 2>>, i |-> <<>>]]])
Benchmark(n, stellar) == IF stellar THEN OrgBenchmark(n) ELSE FlatBenchmark(n)

Sizes_(max, stellar) == { n \in 1..max : stellar => n % 3 = 0 }
Tasks(max, runs, stellar) == Sizes_(max, stellar) \X (0..(runs - 1))

ResultsOf(F) == LET mq == TLCEval(MQ(F))
                IN  [mq |-> mq, mbs |-> MBS(F), mss |-> SplittingAnswerOf(mq)]
\* computed once
CONSTANT Largest
Flat == [n \in 1..Largest |-> ResultsOf(FlatBenchmark(n))]
Org  == [n \in { k \in 1..Largest : k % 3 = 0 } |-> ResultsOf(OrgBenchmark(n))]

\* the benchmarks have intersecting quorums, and known numbers of sets
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binomial(n - 1, k - 1) + Binomial(n - 1, k)
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
ASSUME Closed ==
  /\ \A n \in 1..Largest :
       LET t == T67(n)
       IN  /\ Cardinality(Flat[n].mq) = Binomial(n, t)
           /\ Cardinality(Flat[n].mbs) = Binomial(n, n - t + 1)
           /\ n > t => Cardinality(Flat[n].mss) = Binomial(n, 2 * t - n)
           /\ QIof(Flat[n].mq)
  /\ \A n \in DOMAIN Org :
       LET m == n \div 3  t == T67(m)
       IN  /\ Cardinality(Org[n].mq) = Binomial(m, t) * Power(3, t)
           /\ Cardinality(Org[n].mbs) = Binomial(m, m - t + 1) * Power(3, m - t + 1)
           /\ QIof(Org[n].mq)

Col(m, SS) == LET r == SetToSeq(SS) IN m[1] = Len(r) /\ MeanOk(m[2], r)
RowTrue(row, stellar) ==
  LET E == IF stellar THEN Org[row.size] ELSE Flat[row.size]
  IN  Col(row.mq, E.mq) /\ Col(row.mbs, E.mbs) /\ Col(row.mss, E.mss) /\ row.durations

Task(row) == <<row.size, row.run>>
TasksOf(rows) == { Task(rows[k]) : k \in DOMAIN rows }
\* rows is what a run that is to do `todo` may have written, old being what was there before
Ordered(rows) == \A k \in 1..(Len(rows) - 1) : rows[k].size <= rows[k + 1].size
Written(rows, todo, old, stellar) ==
  LET all == todo \cup TasksOf(old)
  IN  /\ Ordered(rows) /\ Cardinality(TasksOf(rows)) = Len(rows) /\ TasksOf(rows) \subseteq all
      /\ \A k \in DOMAIN rows :
           IF Task(rows[k]) \in TasksOf(old)
           THEN \E j \in DOMAIN old : old[j] = rows[k]
           ELSE RowTrue(rows[k], stellar)
      \* nothing is left out before a row of a larger size
      /\ rows # <<>> => \A t \in all : t[1] < rows[Len(rows)].size => t \in TasksOf(rows)
Complete(rows, todo, old) == TasksOf(rows) = todo \cup TasksOf(old)
=============================================================================
