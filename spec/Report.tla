------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What the fbas_analyzer command reports: which results, in which order,  *)
(* in which form, for every combination of options.                        *)
(***************************************************************************)
EXTENDS Results, Finders

\* the grouping in effect: country before ISP before organization; the first two need a file
Merge(o) == IF o.ctry THEN IF o.stdin THEN "none" ELSE "ctry"
            ELSE IF o.isp THEN IF o.stdin THEN "none" ELSE "isp"
            ELSE IF o.org THEN "org" ELSE "none"
WantQ(o) == o.a \/ o.q
WantB(o) == o.a \/ o.b
WantS(o) == o.a \/ o.s

If(cond, seq) == IF cond THEN seq ELSE <<>>
Result(name)   == <<"result", name>>
Duration(name) == <<"duration", name>>
Timed(name)    == << Result(name), Duration(name) >>
Said(o, what, name) == If(~o.ro, << <<what, name>> >>)
SaysFound(o, name) == Timed(name) \o Said(o, "found", name)

\* the items of the report; `split` says if non-intersecting quorums are to be shown
Items(o, split) ==
     << Result("nodes_total") >>
  \o If(Merge(o) # "none", << Result("nodes_total_merged") >>)
  \o Timed("symmetric_clusters")
  \o If(WantQ(o), SaysFound(o, "minimal_quorums"))
  \o If(~o.dont, Timed("has_quorum_intersection")
                 \o If(o.alt /\ split, << Result("nonintersecting_quorums") >>)
                 \o Said(o, "verdict", "has_quorum_intersection"))
  \o If(WantB(o), SaysFound(o, "minimal_blocking_sets"))
  \o If(WantS(o), SaysFound(o, "minimal_splitting_sets"))
  \o If(WantQ(o) \/ WantB(o) \/ WantS(o), << Result("top_tier") >> \o Said(o, "found", "top_tier"))

\* the form in which a result is shown
Form(o, name) ==
  CASE name \in {"nodes_total", "nodes_total_merged", "has_quorum_intersection"} -> "plain"
    [] name \in {"symmetric_clusters", "top_tier"} -> IF o.p THEN "names" ELSE "ids"
    [] OTHER -> IF o.d THEN "metrics" ELSE IF o.p THEN "names" ELSE "ids"

-----------------------------------------------------------------------------
\* metrics of a set of sets
MetricsOk(m, SS) ==
  LET r == SetToSeq(SS)
  IN  /\ m.n = Len(r) /\ m.nodes = Cardinality(Involved(r))
      /\ m.min = MinSize(r) /\ m.max = MaxSize(r) /\ MeanOk(m.mean, r) /\ m.hist = Histogram(r)
=============================================================================
