------------------------------ MODULE TraceC18 ------------------------------
(* Policies configure what they promise. st.q: the quorum sets of the FBAS;    *)
(* st.r: the rank scores of the policy's graph.                                *)
EXTENDS Qsc, TraceBase

Pol == Case.pol
F(q) == [n |-> Len(q), q |-> q]

EvRanks == IsEvent("ranks") /\ IsRanking(Pol.g, Ev.r) /\ st' = [st EXCEPT !.r = Ev.r]
\* a node was added by the test
EvGrow == IsEvent("add") /\ st' = [st EXCEPT !.q = Append(st.q, EmptyQSet)]
EvConfigure ==
  /\ IsEvent("configure")
  /\ Len(Ev.after) = Len(st.q)
  /\ \A y \in 0..(Len(st.q) - 1) : y # Ev.x => Ev.after[y + 1] = st.q[y + 1]
  /\ PolicyOk(Pol, st.r, F(st.q), Ev.x, st.q[Ev.x + 1], Ev.after[Ev.x + 1])
  /\ Ev.change = (Ev.after[Ev.x + 1] # st.q[Ev.x + 1])
  /\ st' = [st EXCEPT !.q = Ev.after]
EvThresholds == /\ Observe("thresholds")
                /\ \A k \in DOMAIN Ev.t67 : Ev.t67[k] = T67(k)
                /\ \A j \in DOMAIN Ev.rel : \A k \in DOMAIN Ev.rel[j].t :
                      Ev.rel[j].t[k] = Threshold(k, Ev.rel[j].x)

Next == \/ Load([q |-> Case.q, r |-> <<>>])
        \/ EvRanks
        \/ EvGrow
        \/ EvConfigure
        \/ EvThresholds
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
