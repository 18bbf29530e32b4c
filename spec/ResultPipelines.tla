--------------------------- MODULE ResultPipelines ---------------------------
(* Enumerates the pipelines of post-processing steps for replay: a result to   *)
(* start from and up to Length steps.                                          *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Length
VARIABLE h
Init == h \in { <<x>> : x \in {"mq", "mbs", "mss"} }
Next == /\ Len(h) <= Length
        /\ \E q \in {"without", "without_pretty", "without_grouped", "merged", "minimal"} : h' = Append(h, q)
Emit == Len(h) = Length + 1 => PrintT("HIST " \o ToJson(h))
=============================================================================
