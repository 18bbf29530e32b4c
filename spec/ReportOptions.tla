--------------------------- MODULE ReportOptions ---------------------------
(* All combinations of command line options of fbas_analyzer.               *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE o
Init == o \in [q : BOOLEAN, b : BOOLEAN, s : BOOLEAN, a : BOOLEAN, alt : BOOLEAN, dont : BOOLEAN,
               d : BOOLEAN, p : BOOLEAN, ro : BOOLEAN, org : BOOLEAN, isp : BOOLEAN, ctry : BOOLEAN,
               stdin : BOOLEAN]
Next == UNCHANGED o
Emit == PrintT("HIST " \o ToJson(o))
=============================================================================
