------------------------------ MODULE TraceC21 ------------------------------
(* Reports of the fbas_analyzer command, item by item.                         *)
(* Case: FBAS [n, q], keys, groups (by kind). st.truth: the definitions;       *)
(* st.o: options of the current run; st.todo: items still to be reported.      *)
EXTENDS Report, TraceBase

GS(o) == IF Merge(o) = "none" THEN <<>> ELSE Case.groups[Merge(o)]
\* every group is represented by its smallest member
Canonical(gs, x) == Min(Peers(gs, x))
CanonSet(gs, S) == { Canonical(gs, x) : x \in S }
\* what a printed id or name stands for (a name no node or group has stands for a node that does not exist)
Means(gs, form, x) ==
  IF form = "ids" THEN Canonical(gs, x)
  ELSE IF \E k \in DOMAIN gs : gs[k].name = x
       THEN LET g == gs[CHOOSE k \in DOMAIN gs : gs[k].name = x]
            IN  IF g.validators = <<>> THEN Case.n ELSE Canonical(gs, g.validators[1])
       ELSE IF \E k \in DOMAIN Case.keys : Case.keys[k] = x /\ GroupsOf(gs, k - 1) = {}
            THEN (CHOOSE k \in DOMAIN Case.keys : Case.keys[k] = x) - 1 ELSE Case.n
MeansSeq(gs, form, s) == [k \in DOMAIN s |-> Means(gs, form, s[k])]
RECURSIVE MeansQ(_, _, _)
MeansQ(gs, form, q) == [t |-> q.t, v |-> MeansSeq(gs, form, q.v), i |-> [k \in DOMAIN q.i |-> MeansQ(gs, form, q.i[k])]]

Truth == LET mq == MQ(Case)
         IN  [mq |-> mq, qi |-> QIof(mq), mbs |-> MBS(Case), mss |-> SplittingAnswerOf(mq), tt |-> UNION mq,
              cl |-> SymClusters(Case)]
\* a set of sets as it is to be reported
Shown(o, SS) == IF Merge(o) = "none" THEN SS ELSE MinimalSets({ CanonSet(GS(o), S) : S \in SS })
SetsOk(o, SS) ==
  LET form == Form(o, Ev.name)
      E == Shown(o, SS)
  IN  IF form = "metrics" THEN MetricsOk(Ev.v, E)
      ELSE LET r == [k \in DOMAIN Ev.v |-> MeansSeq(GS(o), form, Ev.v[k])]
           IN  Lists(r) /\ SetsOf(r) = E
ClustersOk(o) ==
  LET gs == GS(o)
      form == Form(o, Ev.name)
      r == [k \in DOMAIN Ev.v |-> MeansQ(gs, form, Ev.v[k])]
      Blocks == { Peers(gs, x) : x \in UNION { Contained(q) : q \in st.truth.cl } }
      Unions == { UNION b : b \in SUBSET Blocks }
      same(q, m) == IF Merge(o) = "none" THEN SameQSet(q, m)
                    ELSE /\ Contained(m) \subseteq CanonSet(gs, Contained(q))
                         /\ \A S \in Unions : Slice(q, S) <=> Slice(m, CanonSet(gs, S))
  IN  /\ Len(r) = Cardinality(st.truth.cl)
      /\ \A q \in st.truth.cl : \E k \in DOMAIN r : same(q, r[k])
      /\ \A k \in DOMAIN r : \E q \in st.truth.cl : same(q, r[k])
\* two disjoint quorums; merging does not apply to them, only their names
WitnessOk(o) ==
  LET form == Form(o, Ev.name)
  IN  IF form = "metrics" THEN Ev.v.n >= 2 /\ Ev.v.min >= 1
      ELSE /\ Len(Ev.v) >= 2
           /\ IF form = "ids" \/ GS(o) = <<>>
              THEN LET r == [k \in DOMAIN Ev.v |-> SetOf(MeansSeq(<<>>, form, Ev.v[k]))]
                   IN  r[1] \cap r[2] = {} /\ \A k \in DOMAIN r : r[k] \subseteq Nodes(Case) /\ IsQuorum(Case, r[k])
              ELSE \A k \in DOMAIN Ev.v : Ev.v[k] # <<>> /\ SetOf(MeansSeq(GS(o), form, Ev.v[k])) \subseteq CanonSet(GS(o), Nodes(Case))

ResultOk(o, name) ==
  CASE name = "nodes_total" -> Ev.v = Case.n
    [] name = "nodes_total_merged" -> Ev.v = Cardinality(CanonSet(GS(o), Nodes(Case)))
    [] name = "symmetric_clusters" -> ClustersOk(o)
    [] name = "minimal_quorums" -> SetsOk(o, st.truth.mq)
    [] name = "minimal_blocking_sets" -> SetsOk(o, st.truth.mbs)
    [] name = "minimal_splitting_sets" -> SetsOk(o, st.truth.mss)
    [] name = "has_quorum_intersection" -> Ev.v = st.truth.qi
    [] name = "nonintersecting_quorums" -> WitnessOk(o)
    [] name = "top_tier" -> NoDups(Ev.v) /\ SetOf(MeansSeq(GS(o), Form(o, name), Ev.v)) = CanonSet(GS(o), st.truth.tt)
                            /\ Len(Ev.v) = Cardinality(CanonSet(GS(o), st.truth.tt))

EvStart == /\ IsEvent("start") /\ st.todo = <<>>
           /\ st' = [st EXCEPT !.o = Ev.o, !.todo = Items(Ev.o, st.truth.mq # {} /\ ~st.truth.qi) \o << <<"end", "">> >>]
Next_(k, name) == st.todo # <<>> /\ st.todo[1] = <<k, name>> /\ st' = [st EXCEPT !.todo = Tail(st.todo)]
EvResult   == IsEvent("result") /\ Next_("result", Ev.name) /\ Ev.form = Form(st.o, Ev.name) /\ ResultOk(st.o, Ev.name)
EvDuration == IsEvent("duration") /\ Next_("duration", Ev.name) /\ Ev.ok
EvVerdict  == IsEvent("verdict") /\ Next_("verdict", "has_quorum_intersection") /\ Ev.v = st.truth.qi
\* counts in the commentary are those before merging, except for the top tier
EvFound    == /\ IsEvent("found") /\ Next_("found", Ev.name)
              /\ Ev.v = CASE Ev.name = "minimal_quorums" -> Cardinality(st.truth.mq)
                          [] Ev.name = "minimal_blocking_sets" -> Cardinality(st.truth.mbs)
                          [] Ev.name = "minimal_splitting_sets" -> Cardinality(st.truth.mss)
                          [] Ev.name = "top_tier" -> Cardinality(CanonSet(GS(st.o), st.truth.tt))
EvEnd      == IsEvent("end") /\ Next_("end", "") /\ Ev.exit = 0 /\ (st.o.ro => ~Ev.text)

Next == \/ Load([truth |-> Truth, o |-> <<>>, todo |-> <<>>])
        \/ EvStart
        \/ EvResult
        \/ EvDuration
        \/ EvVerdict
        \/ EvFound
        \/ EvEnd
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
