------------------------------ MODULE TraceC09 ------------------------------
(* Replayed query histories: every recorded answer is the answer of the       *)
(* Analysis state machine, which is also the one the definitions give.        *)
EXTENDS Analysis, TraceBase

F == [n |-> Case.n, q |-> Case.q]

\* recorded answers as values
AsSets(r) == SetsOf(r)
Matches(q, r, w, a) ==
  CASE q \in {"hqi", "alt"} -> r = a
    [] q \in {"mq", "mbs", "mss"} -> Lists(r) /\ SetsOf(r) = a
    [] q \in {"tt", "all", "sat", "unsat"} -> NoDups(r) /\ SetOf(r) = a
    [] OTHER -> SetOf(r) = a      \* symcl, symtt: quorum sets

EvQuery ==
  /\ IsEvent("query")
  /\ LET s == After(st, Ev.q)
     IN  /\ Matches(Ev.q, Ev.r, <<>>, Answer(s, Ev.q))
         /\ st' = s
\* a result that was handed out by an earlier query (k-th of the history), looked at only now
EvHeld ==
  /\ Observe("held")
  /\ Matches(Ev.q, Ev.r, <<>>, Answer(After(st, Ev.q), Ev.q))
\* the answer of a fresh object to this query alone
EvFresh ==
  /\ Observe("fresh")
  /\ Matches(Ev.q, Ev.r, <<>>, Answer(After(New(F), Ev.q), Ev.q))
EvWitness ==
  /\ Observe("witness")
  /\ Len(Ev.w) >= 2
  /\ \A k \in DOMAIN Ev.w : SetOf(Ev.w[k]) \subseteq Nodes(F) /\ IsQuorum(F, SetOf(Ev.w[k]))
  /\ SetOf(Ev.w[1]) \cap SetOf(Ev.w[2]) = {}

Next == \/ Load(New(F))
        \/ EvQuery
        \/ EvHeld
        \/ EvFresh
        \/ EvWitness
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
