----------------------------- MODULE Simulation -----------------------------
(***************************************************************************)
(* The simulation protocol as a state machine. A state is a record         *)
(*   q       quorum sets by node (the FBAS),                               *)
(*   mode    "idle", "new" (a node was added, not yet configured),         *)
(*           "announce", "start" (reevaluation to begin), "between"        *)
(*           (between rounds), "round" (within a round), "report" (a       *)
(*           configuration in a round is to be reported)                   *)
(*   left    nodes still to be spawned by the current growth,              *)
(*   grow    whether the reevaluation belongs to a growth,                 *)
(*   max     limit of rounds, rounds  rounds made,                         *)
(*   todo    nodes not yet visited in this round,                          *)
(*   changed whether this round has changed anything,                      *)
(*   last    the configuration to be reported: <<node, changed>>           *)
(*   result  number of rounds of the last finished reevaluation            *)
(* The operators are the guards and effects of the steps; MCSimulation     *)
(* explores them with an arbitrary configurator, TraceC17 matches recorded *)
(* steps of the real simulator against them.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start(q) == [q |-> q, mode |-> "idle", left |-> 0, grow |-> FALSE, max |-> 0, rounds |-> 0,
             todo |-> {}, changed |-> FALSE, last |-> <<>>, result |-> -1]
N(s) == Len(s.q)
Ids(s) == 0..(N(s) - 1)

\* growth by k nodes is requested
CanGrow(s) == s.mode = "idle" /\ s.left = 0
AddOne(s, empty) == [s EXCEPT !.q = Append(s.q, empty), !.mode = "new", !.left = s.left - 1, !.grow = TRUE]
Grow(s, k, empty) == IF k = 0 THEN s ELSE AddOne([s EXCEPT !.left = k], empty)

\* a reevaluation with at most m rounds is requested
CanReevaluate(s) == s.mode = "idle" /\ s.left = 0
Reevaluate(s, m) == [s EXCEPT !.mode = "start", !.grow = FALSE, !.max = m]

\* the configurator is asked to configure x, decides on quorum set qx and answers `change`
CanConfigure(s, x) == \/ s.mode = "new" /\ x = N(s) - 1
                      \/ s.mode = "round" /\ x \in s.todo
Configure(s, x, qx, change) ==
  LET s1 == [s EXCEPT !.q[x + 1] = qx]
  IN  IF s.mode = "new" THEN [s1 EXCEPT !.mode = "announce"]
      ELSE [s1 EXCEPT !.mode = "report", !.todo = s.todo \ {x},
                      !.changed = s.changed \/ change, !.last = <<x, change>>]

\* what is announced to the monitor
CanAnnounce(s, x) == s.mode = "announce" /\ x = N(s) - 1
Announce(s) == [s EXCEPT !.mode = "start", !.max = N(s)]

CanReport(s, x, change) == s.mode = "report" /\ s.last = <<x, change>>
Report(s) == [s EXCEPT !.mode = "round", !.last = <<>>]

CanBegin(s) == s.mode = "start"
Begin(s) == [s EXCEPT !.mode = "between", !.rounds = 0, !.changed = TRUE]

\* a round begins if there has been none yet or the last one changed something
RoundOver(s) == s.mode = "between" \/ (s.mode = "round" /\ s.todo = {})
CanStartRound(s) == RoundOver(s) /\ s.changed /\ s.rounds < s.max
StartRound(s) == [s EXCEPT !.mode = "round", !.todo = Ids(s), !.changed = FALSE, !.rounds = s.rounds + 1]

CanFinish(s, r) == RoundOver(s) /\ (~s.changed \/ s.rounds = s.max) /\ r = s.rounds
Finish(s, empty) ==
  LET s1 == [s EXCEPT !.mode = "idle", !.todo = {}, !.changed = FALSE, !.result = s.rounds, !.rounds = 0, !.max = 0]
  IN  IF s.grow /\ s.left > 0 THEN AddOne(s1, empty) ELSE [s1 EXCEPT !.grow = FALSE]
Quiet(s) == s.mode = "idle" /\ s.left = 0
=============================================================================
