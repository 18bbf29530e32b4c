-------------------------- MODULE AnalysisHistories --------------------------
(* Enumerates the query histories of the Analysis state machine for replay   *)
(* against the code: every sequence of Len queries, "pure" standing for one  *)
(* of the queries that neither read nor write a cache.                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Length
VARIABLE h
Init == h = <<>>
Next == /\ Len(h) < Length
        /\ \E q \in {"hqi", "alt", "mq", "mbs", "mss", "tt", "pure"} : h' = Append(h, q)
Emit == Len(h) = Length => PrintT("HIST " \o ToJson(h))
=============================================================================
