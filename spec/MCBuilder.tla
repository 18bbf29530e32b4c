------------------------------ MODULE MCBuilder ------------------------------
(* The object as a state machine, and the enumeration of its histories.       *)
(* Design check: keys stay distinct, ids are dense, looking up is the inverse *)
(* of naming, restriction and generic names together make additions fail.     *)
EXTENDS Builder, Json
CONSTANTS Length, MaxNodes
VARIABLES nodes, h
vars == <<nodes, h>>

Starts == [ new  |-> <<>>,
            gen3 |-> Fresh(3),
            doc  |-> << [key |-> "b", q |-> EmptyQSet], [key |-> "n0", q |-> EmptyQSet],
                        [key |-> "a", q |-> EmptyQSet] >>,
            dock |-> << [key |-> "n1", q |-> EmptyQSet], [key |-> "n3", q |-> EmptyQSet],
                        [key |-> "n10", q |-> EmptyQSet], [key |-> "N1", q |-> EmptyQSet] >> ]
All(n) == [t |-> n, v |-> [k \in 1..n |-> k - 1], i |-> <<>>]

Init == \E s \in DOMAIN Starts : nodes = Starts[s] /\ h = <<s>>
Step(op) == h' = Append(h, op)
\* the sets of nodes to keep
Keeps(n) == [ tail |-> { x \in 0..(n - 1) : x > 0 }, head |-> { x \in 0..(n - 1) : x < n - 1 },
              even |-> { x \in 0..(n - 1) : x % 2 = 0 }, odd |-> { x \in 0..(n - 1) : x % 2 = 1 },
              all |-> 0..(n - 1), none |-> {} ]
Kept(N, keep) == LET s == SetToSortSeq(keep, LAMBDA a, b : a < b) IN [k \in DOMAIN s |-> N[s[k] + 1]]

GenNode   == /\ Step("gen")
             /\ nodes' = IF CanAdd(nodes) THEN Add(nodes, All(Len(nodes) + 1)) ELSE nodes
SwapFirst == Len(nodes) > 0 /\ Step("swap_first") /\ nodes' = Swap(nodes, 0, All(Len(nodes)))
SwapLast  == Len(nodes) > 1 /\ Step("swap_last") /\ nodes' = Swap(nodes, Len(nodes) - 1, All(Len(nodes)))
CutTo  == \E w \in {"tail", "head", "even", "odd", "all", "none"} :
               /\ (Len(nodes) > 0 \/ w = "all") /\ (h[Len(h)] # w)
               /\ Step(w) /\ nodes' = Kept(nodes, Keeps(Len(nodes))[w])
Reload    == h[Len(h)] # "reload" /\ Step("reload") /\ nodes' = nodes
Next == /\ Len(h) <= Length /\ Len(nodes) <= MaxNodes
        /\ (GenNode \/ SwapFirst \/ SwapLast \/ CutTo \/ Reload)

Inv == /\ WellFormed(nodes)
       /\ \A k \in DOMAIN nodes : Lookup(nodes, nodes[k].key) = k - 1
       /\ Lookup(nodes, "nobody") = -1
Emit == Len(h) = Length + 1 => PrintT("HIST " \o ToJson(h))
=============================================================================
