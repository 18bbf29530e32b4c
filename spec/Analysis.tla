------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* The Analysis front end as a state machine: an object that answers       *)
(* queries about one FBAS, works on a renumbered restriction of the FBAS   *)
(* ("shrunken"), caches long-running results in shrunken node ids, and     *)
(* shrinks its id space a second time, to the top tier, as soon as the top *)
(* tier is known - translating what it has cached.                         *)
(*                                                                         *)
(* State: [f      the FBAS that was passed in,                             *)
(*         table  id of the shrunken FBAS -> id of f (a sequence),         *)
(*         g      the shrunken FBAS,                                       *)
(*         hqi, mq, mbs, mss   caches: <<>> or <<value>> in ids of g]      *)
(* The operators are functions on that state so that the model checker     *)
(* (MCAnalysis) and the trace specification (TraceC09) share them.         *)
(***************************************************************************)
EXTENDS Finders

\* What "relevant" means is a choice between two bounds; the model takes the
\* implementation's: components of the graph induced by the satisfiable nodes.
Relevant(F) == RelevantMin(F)

SortedSeq(S) == SetToSortSeq(S, <)

-----------------------------------------------------------------------------
(* Restriction with renumbering *)

RECURSIVE ShrinkQ(_, _, _)
ShrinkQ(q, keep, m) ==
  LET vals  == SelectSeq(q.v, LAMBDA x : x \in keep)
      inner == SelectSeq([k \in DOMAIN q.i |-> ShrinkQ(q.i[k], keep, m)], LAMBDA x : x # EmptyQSet)
  IN  [t |-> q.t, v |-> [k \in DOMAIN vals |-> m[vals[k]]], i |-> inner]

Shrink(F, keep) ==
  LET m == Ranks(keep)
      tab == SortedSeq(keep)
  IN  [n |-> Cardinality(keep), q |-> [k \in 1..Cardinality(keep) |-> ShrinkQ(QSet(F, tab[k]), keep, m)]]

Unshrink(s, S)   == { s.table[x + 1] : x \in S }
Unshrinks(s, SS) == { Unshrink(s, S) : S \in SS }
\* ids of one table -> ids of another
Reshrink(old, new, S) == { CHOOSE k \in 0..(Len(new) - 1) : new[k + 1] = old[x + 1] : x \in S }

-----------------------------------------------------------------------------
(* The computations *)

New(F) == LET R == Relevant(F)
          IN  [f |-> F, table |-> SortedSeq(R), g |-> Shrink(F, R),
               hqi |-> <<>>, mq |-> <<>>, mbs |-> <<>>, mss |-> <<>>]

\* the second shrinking, to the nodes in `sets` (of the current id space)
ShrinkToTopTier(s, sets) ==
  LET tt   == Unshrink(s, UNION sets)
      tab  == SortedSeq(tt)
      move(cache) == IF cache = <<>> THEN <<>> ELSE << { Reshrink(s.table, tab, S) : S \in cache[1] } >>
  IN  [s EXCEPT !.table = tab, !.g = Shrink(s.f, tt), !.mq = move(s.mq), !.mbs = move(s.mbs)]

WithMq(s) ==
  IF s.mq # <<>> THEN s
  ELSE LET r  == MQ(s.g)
           s1 == [s EXCEPT !.mq = <<r>>]
       IN  IF s.mbs = <<>> THEN ShrinkToTopTier(s1, r) ELSE s1
WithMbs(s) ==
  IF s.mbs # <<>> THEN s
  ELSE LET r  == MBS(s.g)
           s1 == [s EXCEPT !.mbs = <<r>>]
       IN  IF s.mq = <<>> THEN ShrinkToTopTier(s1, r) ELSE s1
WithHqi(s) ==
  IF s.hqi # <<>> THEN s
  ELSE LET s1 == WithMq(s) IN [s1 EXCEPT !.hqi = <<QIof(s1.mq[1])>>]
WithMss(s) ==
  LET s1 == WithMq(s)
  IN  IF s1.mss # <<>> THEN s1
      ELSE LET s2 == WithHqi(s1)
           IN  [s2 EXCEPT !.mss = << IF s2.hqi[1] THEN MinSplittingOf(s2.mq[1]) ELSE { {} } >>]
WithTopTier(s) == IF s.mq # <<>> \/ s.mbs = <<>> THEN WithMq(s) ELSE WithMbs(s)
TopTierAnswer(s) == UNION (IF s.mq # <<>> THEN s.mq[1] ELSE s.mbs[1])

-----------------------------------------------------------------------------
(* Queries: next state and answer *)

Stateful == {"hqi", "mq", "mbs", "mss", "tt"}
Pure     == {"alt", "all", "sat", "unsat", "symcl", "symtt"}

After(s, q) == CASE q = "hqi" -> WithHqi(s)
                 [] q = "mq"  -> WithMq(s)
                 [] q = "mbs" -> WithMbs(s)
                 [] q = "mss" -> WithMss(s)
                 [] q = "tt"  -> WithTopTier(s)
                 [] OTHER     -> s
\* the answer given in state After(s, q), in ids of f
Answer(s, q) == CASE q = "hqi" -> s.hqi[1]
                  [] q = "mq"  -> Unshrinks(s, s.mq[1])
                  [] q = "mbs" -> Unshrinks(s, s.mbs[1])
                  [] q = "mss" -> Unshrinks(s, s.mss[1])
                  [] q = "tt"  -> Unshrink(s, TopTierAnswer(s))
                  [] q = "all" -> Nodes(s.f)
                  [] q = "sat" -> Sat(s.f)
                  [] q = "unsat" -> Unsat(s.f)
                  [] q = "symcl" -> SymClusters(s.f)
                  [] q = "symtt" -> SymTopTier(s.f)
                  [] q = "alt" -> QIof(MQ(s.g))
\* what the definitions say, without any id space or cache
Truth(F, q) == LET mq == MQ(F)
               IN  CASE q = "hqi" -> QIof(mq)
                     [] q = "alt" -> QIof(mq)
                     [] q = "mq"  -> mq
                     [] q = "mbs" -> MBS(F)
                     [] q = "mss" -> SplittingAnswerOf(mq)
                     [] q = "tt"  -> UNION mq
                     [] OTHER -> Answer([f |-> F], q)
=============================================================================
