------------------------------- MODULE Results -------------------------------
(* Results of an analysis (a sequence of node sets in original ids) and their  *)
(* post-processing: a pipeline of operations, each observable in every form.   *)
EXTENDS Groups

\* sequence of sets -> sequence of sets
WithoutNodes(r, X) == [k \in DOMAIN r |-> r[k] \ X]
MergedBy(r, rep)   == [k \in DOMAIN r |-> MergeBy(rep, r[k])]
SeqSets(r)         == { r[k] : k \in DOMAIN r }

Sum(r) == FoldLeft(LAMBDA acc, S : acc + Cardinality(S), 0, r)
Sizes(r) == { Cardinality(r[k]) : k \in DOMAIN r }
MinSize(r) == IF r = <<>> THEN 0 ELSE Min(Sizes(r))
MaxSize(r) == IF r = <<>> THEN 0 ELSE Max(Sizes(r))
Histogram(r) == [s \in 1..(MaxSize(r) + 1) |-> Cardinality({ k \in DOMAIN r : Cardinality(r[k]) = s - 1 })]
Involved(r) == UNION SeqSets(r)
Scale == 10000   \* means are compared as fixed-point numbers
MeanOk(m, r) == IF r = <<>> THEN m = 0
                ELSE LET d == m * Len(r) - Sum(r) * Scale IN -Len(r) <= d /\ d <= Len(r)
\* a recorded list of lists is exactly this sequence of sets, each in id order
Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Shows(lists, r) == /\ Len(lists) = Len(r)
                   /\ \A k \in DOMAIN r : Increasing(lists[k]) /\ SetOf(lists[k]) = r[k]
=============================================================================
