------------------------------ MODULE TraceC17 ------------------------------
(* Recorded runs of the simulator: calls, calls of the configurator (with the *)
(* thresholds of all quorum sets it was given and left behind) and events the *)
(* monitor received, in the order in which they happened.                     *)
EXTENDS Simulation, TraceBase

Empty == 0
Step(op, guard, s) == IsEvent(op) /\ guard /\ st' = s

EvGrow   == Step("grow", CanGrow(st), Grow(st, Ev.k, Empty))
EvReeval == Step("reeval", CanReevaluate(st), Reevaluate(st, Ev.max))
EvReturn == /\ Observe("return") /\ Quiet(st)
            /\ (Ev.r >= 0 => Ev.r = st.result)
EvConfigure ==
  /\ IsEvent("configure")
  /\ Ev.x \in Ids(st) /\ CanConfigure(st, Ev.x)
  /\ Ev.before = st.q                       \* nobody else changed anything
  /\ st' = Configure(st, Ev.x, Ev.after[Ev.x + 1], Ev.change)
  /\ Ev.after = st'.q
EvAdd    == Step("AddNode", CanAnnounce(st, Ev.x), Announce(st))
EvBegin  == Step("StartGlobalReevaluation", CanBegin(st), Begin(st))
EvRound  == Step("StartGlobalReevaluationRound", CanStartRound(st), StartRound(st))
EvChange == Step("QuorumSetChange", CanReport(st, Ev.x, Ev.change), Report(st))
EvFinish == Step("FinishGlobalReevaluation", CanFinish(st, Ev.r), Finish(st, Empty))
\* the FBAS handed out at the end, and the debug monitor's record
EvFinal  == Observe("final") /\ Quiet(st) /\ Ev.q = st.q /\ Ev.names
EvDebug  == Observe("debug") /\ Ev.same

Next == \/ Load(Start([k \in 1..Case.n0 |-> k]))
        \/ EvGrow
        \/ EvReeval
        \/ EvReturn
        \/ EvConfigure
        \/ EvAdd
        \/ EvBegin
        \/ EvRound
        \/ EvChange
        \/ EvFinish
        \/ EvFinal
        \/ EvDebug
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
