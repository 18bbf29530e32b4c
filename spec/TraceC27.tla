------------------------------ MODULE TraceC27 ------------------------------
(* An FBAS holds exactly the nodes it was given. The state is the node        *)
(* sequence the object must have, and those of all copies made on the way.    *)
(* Case.universe: keys that are looked up after every step.                    *)
EXTENDS Builder, TraceBase

\* what the object shows of itself must be N
Shows(o, N) ==
  /\ o.n = Len(N)
  /\ o.all = [k \in 1..Len(N) |-> k - 1]
  /\ o.q = QSets(N)
  /\ o.beyond = FALSE
  /\ o.look = [k \in DOMAIN Case.universe |-> Lookup(N, Case.universe[k])]
  \* a group of all the keys has exactly the known ones as members
  /\ SetOf(o.group) = { Lookup(N, x) : x \in SetOf(Case.universe) \cap SetOf(Keys(N)) }
Observed(keys, o) == [k \in DOMAIN keys |-> [key |-> keys[k], q |-> o.q[k]]]
Become(N) == /\ Shows(Ev.o, N)
             /\ WellFormed(N)
             /\ st' = [nodes |-> N, copies |-> Append(st.copies, N), dead |-> FALSE]

EvFresh == IsEvent("fresh") /\ Become(Fresh(Ev.m))
EvDoc   == /\ IsEvent("doc")
           /\ LET M == Observed(Case.names, Ev.o)
              IN  Len(Ev.o.q) = Len(Case.names) /\ SameQSets(QSets(M), Case.q) /\ Become(M)
EvAdd   == IsEvent("gen") /\ CanAdd(st.nodes) /\ Ev.r = Len(st.nodes) /\ Become(Add(st.nodes, Ev.q))
\* a second node of the same name is refused, which ends the use of the object
EvDup   == IsEvent("refused") /\ ~CanAdd(st.nodes) /\ st' = [st EXCEPT !.dead = TRUE]
EvSwap  == /\ IsEvent("swap")
           /\ Ev.r = st.nodes[Ev.x + 1].q
           /\ Become(Swap(st.nodes, Ev.x, Ev.q))
EvRestrict ==
  /\ IsEvent("restrict")
  /\ Len(Ev.o.q) = Len(Ev.keep)
  /\ LET M == Observed(KeptKeys(st.nodes, SetOf(Ev.keep)), Ev.o)
     IN  IsCutTo(st.nodes, SetOf(Ev.keep), M) /\ Become(M)
EvReload ==
  /\ IsEvent("reload")
  /\ Ev.names = Keys(st.nodes)
  /\ Len(Ev.o.q) = Len(st.nodes)
  /\ LET M == Observed(Keys(st.nodes), Ev.o)
     IN  IsReload(st.nodes, M) /\ Become(M)

\* all copies, compared with each other and looked at again
EvCopies ==
  /\ Observe("copies")
  /\ LET C == st.copies
         P == DOMAIN C
     IN  /\ Len(Ev.o) = Len(C)
         /\ \A k \in P : Shows(Ev.o[k], C[k])
         /\ \A k, l \in P : /\ MustEqual(C[k], C[l]) => Ev.eq[k][l]
                            /\ MustNotEqual(C[k], C[l]) => ~Ev.eq[k][l]
                            /\ Ev.eq[k][l] = Ev.eq[l][k]
                            /\ Ev.eq[k][l] => Ev.hash[k] = Ev.hash[l]
                            /\ (Ev.cmp[k][l] = 0) = Ev.eq[k][l]
                            /\ Ev.cmp[k][l] = -Ev.cmp[l][k]
         /\ \A k, l, m \in P : Ev.cmp[k][l] <= 0 /\ Ev.cmp[l][m] <= 0 => Ev.cmp[k][m] <= 0

Next == \/ Load([nodes |-> <<>>, copies |-> <<>>, dead |-> FALSE])
        \/ EvFresh \/ EvDoc
        \/ i > 0 /\ (i > 1 => ~st.dead) /\ (EvAdd \/ EvDup \/ EvSwap \/ EvRestrict \/ EvReload)
        \/ EvCopies
        \/ Done
Spec == TInit /\ [][Next]_tvars
=============================================================================
