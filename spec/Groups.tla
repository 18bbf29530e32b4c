------------------------------- MODULE Groups -------------------------------
(* Groupings of nodes: sequences of [name, validators (ids)]. *)
EXTENDS QSetForm

Members(g) == SetOf(g.validators)
\* groups (by index) that contain x
GroupsOf(gs, x) == { k \in DOMAIN gs : x \in Members(gs[k]) }
Disjoint(gs) == \A a, b \in DOMAIN gs : a # b => Members(gs[a]) \cap Members(gs[b]) = {}
SameGroup(gs, x, y) == x = y \/ \E k \in DOMAIN gs : {x, y} \subseteq Members(gs[k])
\* the group of x as a set of nodes
Peers(gs, x) == {x} \cup UNION { Members(gs[k]) : k \in GroupsOf(gs, x) }

\* rep: a function (sequence) node id -> node id that represents every group by one of its members
IsRepresentation(gs, n, rep) ==
  /\ Len(rep) = n
  /\ \A x \in 0..(n - 1) :
        /\ rep[x + 1] \in Peers(gs, x)
        /\ \A y \in 0..(n - 1) : rep[x + 1] = rep[y + 1] <=> SameGroup(gs, x, y)
MergeBy(rep, S) == { rep[x + 1] : x \in S }

-----------------------------------------------------------------------------
(* Names are sequences of Unicode code points (their order is the order of   *)
(* the UTF-8 texts).                                                         *)
Comma  == 44
Period == 46
Cleaned(name) == LET s == SelectSeq(name, LAMBDA ch : ch # Comma)
                 IN  IF Len(s) > 0 /\ s[Len(s)] = Period THEN SubSeq(s, 1, Len(s) - 1) ELSE s
RECURSIVE Before(_, _)   \* strictly smaller text
Before(a, b) == IF a = <<>> THEN b # <<>>
                ELSE IF b = <<>> THEN FALSE
                ELSE IF a[1] # b[1] THEN a[1] < b[1]
                ELSE Before(Tail(a), Tail(b))
=============================================================================
