--------------------------- MODULE BulkHistories ---------------------------
(* Enumerates chains of runs: inputs, jobs, and after how many released      *)
(* inputs the run is killed (-1: never).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Labels, Runs, JobCounts
VARIABLE h
Init == h = <<>>
Next == /\ Len(h) < Runs
        /\ \E L \in SUBSET Labels \ {{}} : \E j \in JobCounts : \E k \in -1..(Cardinality(L) - 1) :
             h' = Append(h, [labels |-> L, jobs |-> j, kill |-> k])
Emit == Len(h) = Runs => PrintT("HIST " \o ToJson(h))
=============================================================================
