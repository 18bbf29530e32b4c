------------------------- MODULE SimulationScripts -------------------------
(* Enumerates scripts for the simulator: a few calls and, for a scripted      *)
(* configurator, at which of its calls it makes a change.                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Calls, Decisions
VARIABLES calls, decisions
vars == <<calls, decisions>>
Init == calls = <<>> /\ decisions = <<>>
AddCall == /\ decisions = <<>> /\ Len(calls) < Calls
           /\ \E x \in {<<"grow", 0>>, <<"grow", 1>>, <<"grow", 3>>, <<"reeval", 0>>, <<"reeval", 1>>, <<"reeval", 4>>} :
                calls' = Append(calls, x)
           /\ UNCHANGED decisions
AddDecision == /\ Len(calls) = Calls /\ Len(decisions) < Decisions
               /\ \E b \in {0, 1} : decisions' = Append(decisions, b)
               /\ UNCHANGED calls
Next == AddCall \/ AddDecision
Emit == Len(decisions) = Decisions => PrintT("HIST " \o ToJson([calls |-> calls, decisions |-> decisions]))
=============================================================================
