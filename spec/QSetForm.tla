------------------------------ MODULE QSetForm ------------------------------
(* Quorum sets up to the order in which their entries are written, and how   *)
(* written quorum sets (with public keys) are resolved to node ids.          *)
EXTENDS FBAS

CountIn(s, x) == Cardinality({ k \in DOMAIN s : s[k] = x })
Bag(s)        == [x \in SetOf(s) |-> CountIn(s, x)]

RECURSIVE Canon(_)
Canon(q) == LET inner == [k \in DOMAIN q.i |-> Canon(q.i[k])]
            IN  [t |-> q.t, v |-> Bag(q.v), i |-> Bag(inner)]
SameQSet(a, b)  == Canon(a) = Canon(b)
SameQSets(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : SameQSet(a[k], b[k])

\* written form -> quorum set: validators named by unknown keys are dropped
IdOf(names, x) == (CHOOSE k \in DOMAIN names : names[k] = x) - 1
RECURSIVE Resolve(_, _)
Resolve(q, names) ==
  LET known == SelectSeq(q.v, LAMBDA x : x \in SetOf(names))
  IN  [t |-> q.t,
       v |-> [k \in DOMAIN known |-> IdOf(names, known[k])],
       i |-> [k \in DOMAIN q.i |-> Resolve(q.i[k], names)]]
=============================================================================
