---------------------------- MODULE MCSimulation ----------------------------
(* The simulation protocol with an arbitrary configurator that changes       *)
(* quorum sets (abstracted to version numbers) at most Budget times, and     *)
(* with monitors and callers as history variables.                           *)
EXTENDS Simulation, TLC
CONSTANTS MaxNodes, Budget, MaxCalls
VARIABLES s, budget, calls, visits, announced
vars == <<s, budget, calls, visits, announced>>

Init == /\ \E n \in 0..1 : s = Start([k \in 1..n |-> 0])
        /\ budget = Budget /\ calls = 0 /\ visits = <<>> /\ announced = {}

CallGrow == /\ calls < MaxCalls /\ CanGrow(s)
            /\ \E k \in 0..(MaxNodes - N(s)) : s' = Grow(s, k, 0)
            /\ calls' = calls + 1 /\ UNCHANGED <<budget, visits, announced>>
CallReeval == /\ calls < MaxCalls /\ CanReevaluate(s)
              /\ \E m \in 0..3 : s' = Reevaluate(s, m)
              /\ calls' = calls + 1 /\ UNCHANGED <<budget, visits, announced>>
DoConfigure == \E x \in Ids(s) : \E ch \in BOOLEAN :
              /\ CanConfigure(s, x)
              /\ ch => budget > 0
              /\ s' = Configure(s, x, IF ch THEN s.q[x + 1] + 1 ELSE s.q[x + 1], ch)
              /\ budget' = IF ch THEN budget - 1 ELSE budget
              /\ visits' = IF s.mode = "round" THEN Append(visits, x) ELSE visits
              /\ UNCHANGED <<calls, announced>>
DoAnnounce == /\ CanAnnounce(s, N(s) - 1) /\ s' = Announce(s)
            /\ announced' = announced \cup {N(s) - 1} /\ UNCHANGED <<budget, calls, visits>>
DoReport == /\ s.mode = "report" /\ CanReport(s, s.last[1], s.last[2]) /\ s' = Report(s)
          /\ UNCHANGED <<budget, calls, visits, announced>>
DoBegin == CanBegin(s) /\ s' = Begin(s) /\ UNCHANGED <<budget, calls, visits, announced>>
DoRound == CanStartRound(s) /\ s' = StartRound(s) /\ visits' = <<>> /\ UNCHANGED <<budget, calls, announced>>
DoFinish == /\ \E r \in 0..(MaxNodes + 3) : CanFinish(s, r)
          /\ s' = Finish(s, 0) /\ visits' = <<>> /\ UNCHANGED <<budget, calls, announced>>
Next == CallGrow \/ CallReeval \/ DoConfigure \/ DoAnnounce \/ DoReport \/ DoBegin \/ DoRound \/ DoFinish
Spec == Init /\ [][Next]_vars /\ WF_vars(DoConfigure \/ DoAnnounce \/ DoReport \/ DoBegin \/ DoRound \/ DoFinish)

\* a round visits each node at most once, and exactly once when it is over
VisitsOnce == \A j, k \in DOMAIN visits : j # k => visits[j] # visits[k]
RoundComplete == s.mode = "round" /\ s.todo = {} => { visits[k] : k \in DOMAIN visits } = Ids(s)
RoundsBounded == s.rounds <= s.max
AnnouncedInOrder == \E a \in 0..MaxNodes : \E b \in 0..MaxNodes : announced = a..(b - 1)
\* at rest after an unlimited reevaluation nothing is left to change
NeverStuck == s.mode # "idle" => ENABLED Next
Inv == VisitsOnce /\ RoundComplete /\ RoundsBounded /\ AnnouncedInOrder /\ NeverStuck
\* every call returns
Returns == (s.mode # "idle") ~> Quiet(s)
=============================================================================
