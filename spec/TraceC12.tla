------------------------------ MODULE TraceC12 ------------------------------
(* Loading and storing an FBAS as JSON preserves its meaning.                  *)
(* Case.names: public keys in file order; Case.doc[k]: the written quorum set  *)
(* of the k-th node, has = FALSE if the file has none.                         *)
EXTENDS QSetForm, TraceBase

N == Len(Case.names)
Loaded == [k \in 1..N |-> IF Case.doc[k].has THEN Resolve(Case.doc[k].q, Case.names) ELSE EmptyQSet]
\* a never satisfied quorum set
RECURSIVE Dead(_)
Dead(q) == ~Slice(q, 0..(N - 1))

IsLoaded(g) == /\ g.n = N /\ SameQSets(g.q, st)
               /\ \A k \in 1..N : ~Case.doc[k].has => Dead(g.q[k])
EvLoad == /\ Observe("load") /\ IsLoaded(Ev.g)
          /\ Ev.ids = [k \in 1..N |-> k - 1] /\ Ev.unknown = -1
EvFile == Observe("file") /\ IsLoaded(Ev.g) /\ Ev.equal
EvStore ==
  /\ Observe("store")
  /\ Ev.names = Case.names
  /\ Len(Ev.q) = N
  /\ \A k \in 1..N : SameQSet(Resolve(Ev.q[k], Case.names), st[k])
  /\ Ev.known
EvReload   == Observe("reload") /\ Ev.equal /\ Ev.pretty /\ Ev.display /\ IsLoaded(Ev.g)
EvReorder  == Observe("reorder") /\ Ev.equal /\ Ev.text /\ IsLoaded(Ev.g)

Next == \/ Load(Loaded)
        \/ EvLoad
        \/ EvFile
        \/ EvStore
        \/ EvReload
        \/ EvReorder
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
