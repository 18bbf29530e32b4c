------------------------------ MODULE BulkRows ------------------------------
(* What a row of the bulk analyzer's output has to say about an FBAS.          *)
(* Means are fixed-point numbers.                                              *)
EXTENDS Results, Finders

Kinds == {"org", "isp", "ctry"}
\* metrics of sets of sets that row columns [min, max, mean] show
Cols(m, SS) == LET r == SetToSeq(SS) IN m[1] = MinSize(r) /\ m[2] = MaxSize(r) /\ MeanOk(m[3], r)
\* the results of doc (an FBAS with groups), plain and merged
MergedSets(gs, SS) == MinimalSets({ { Min(Peers(gs, x)) : x \in S } : S \in SS })
Expected(doc) ==
  LET mq == MQ(doc)
      P == [mq |-> mq, mbs |-> MBS(doc), mss |-> SplittingAnswerOf(mq)]
      M(gs) == [mq |-> MergedSets(gs, P.mq), mbs |-> MergedSets(gs, P.mbs), mss |-> MergedSets(gs, P.mss),
                tt |-> { Min(Peers(gs, x)) : x \in UNION mq }]
  IN  [qi |-> QIof(mq), plain |-> [mq |-> P.mq, mbs |-> P.mbs, mss |-> P.mss, tt |-> UNION mq],
       org |-> M(doc.groups.org), isp |-> M(doc.groups.isp), ctry |-> M(doc.groups.ctry)]
MetricsOk(m, E) == m.tt = Cardinality(E.tt) /\ Cols(m.mq, E.mq) /\ Cols(m.mbs, E.mbs) /\ Cols(m.mss, E.mss)
\* hasorg: there is an organizations file for it
RowOk(row, doc, E, hasorg) ==
  /\ row.qi = E.qi /\ row.durations
  /\ MetricsOk(row.plain, E.plain)
  /\ \A kind \in Kinds :
       LET has == IF kind = "org" THEN hasorg ELSE doc.groups[kind] # <<>>
       IN  IF has THEN row[kind].has = "all" /\ MetricsOk(row[kind], E[kind]) ELSE row[kind].has = "none"
=============================================================================
