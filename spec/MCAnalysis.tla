----------------------------- MODULE MCAnalysis -----------------------------
(* Model checking of Analysis.tla: for every FBAS of the model file and every *)
(* sequence of queries (with up to MaxLen of them) every answer is the one    *)
(* the definitions give, whatever has been asked before, cached sets stay in  *)
(* step with the id space, and results handed out earlier keep their meaning. *)
EXTENDS Analysis, Json, IOUtils

CONSTANT MaxLen
Systems == ndJsonDeserialize(IOEnv.MODEL_FILE)
\* the restriction to the relevant nodes, once with either reading of "relevant"
VARIABLES k, s, truth, len, last, held
vars == <<k, s, truth, len, last, held>>

F == [n |-> Systems[k].n, q |-> Systems[k].q]
NewOn(R) == [f |-> F, table |-> SortedSeq(R), g |-> Shrink(F, R),
             hqi |-> <<>>, mq |-> <<>>, mbs |-> <<>>, mss |-> <<>>]

Init == /\ k \in DOMAIN Systems
        /\ s \in { NewOn(RelevantMin(F)), NewOn(RelevantMax(F)) }
        /\ truth = [q \in Stateful \cup Pure |-> Truth(F, q)]
        /\ len = 0 /\ last = <<>> /\ held = {}

Query(q) ==
  /\ len < MaxLen
  /\ s' = After(s, q)
  /\ last' = <<q, Answer(s', q)>>
  \* a result keeps the table it was made with
  /\ held' = IF q \in {"mq", "mbs", "mss"}
             THEN held \cup {<<q, CASE q = "mq" -> s'.mq[1] [] q = "mbs" -> s'.mbs[1] [] OTHER -> s'.mss[1], s'.table>>}
             ELSE held
  /\ len' = len + 1
  /\ UNCHANGED <<k, truth>>

Next == \/ \E q \in Stateful \cup Pure : Query(q)
        \/ len = MaxLen /\ UNCHANGED vars

HistoryIndependent == last # <<>> => last[2] = truth[last[1]]
HeldStayValid ==
  \A h \in held : { { h[3][x + 1] : x \in S } : S \in h[2] } = truth[h[1]]
CachesMatch ==
  /\ s.mq # <<>>  => Unshrinks(s, s.mq[1])  = truth["mq"]
  /\ s.mbs # <<>> => Unshrinks(s, s.mbs[1]) = truth["mbs"]
  /\ s.mss # <<>> => Unshrinks(s, s.mss[1]) = truth["mss"]
  /\ s.hqi # <<>> => s.hqi[1] = truth["hqi"]
\* the id space always covers the top tier, and restricting changes no quorum in it
SpaceCoversTopTier ==
  /\ truth["tt"] \subseteq SetOf(s.table)
  /\ s.mq # <<>> \/ s.mbs # <<>> => SetOf(s.table) = truth["tt"]
ShrinkingPreservesQuorums ==
  IsProjection(F, SetOf(s.table), s.g, Ranks(SetOf(s.table)))
Inv == /\ HistoryIndependent /\ HeldStayValid /\ CachesMatch /\ SpaceCoversTopTier
       /\ (len <= 1 => ShrinkingPreservesQuorums)
=============================================================================
