------------------------------ MODULE TraceC26 ------------------------------
(* Recorded runs of the performance experiment. st: the rows on disk, in a     *)
(* sequence of at most one (<<>>: there is no file).                           *)
EXTENDS Experiment, TraceBase

Old(update) == IF update /\ st # <<>> THEN st[1] ELSE <<>>
Todo == Tasks(Ev.max, Ev.runs, Ev.stellar)

EvPrepare == IsEvent("prepare") /\ st' = <<Ev.rows>>
EvPrinted == /\ Observe("printed") /\ Ev.exit = 0 /\ Ev.complete
             /\ Written(Ev.rows, Todo, <<>>, Ev.stellar) /\ Complete(Ev.rows, Todo, <<>>)
EvRefused == /\ Observe("refused") /\ st # <<>> /\ Ev.exit # 0 /\ Ev.untouched
EvRan == /\ IsEvent("ran") /\ (st = <<>> \/ Ev.update)
         /\ Ev.exit = 0 /\ Ev.complete
         /\ Written(Ev.rows, Todo, Old(Ev.update), Ev.stellar)
         /\ Complete(Ev.rows, Todo, Old(Ev.update))
         /\ st' = <<Ev.rows>>
\* killed at some point: a beginning of what was to be written, or nothing done yet
EvKilled ==
  /\ IsEvent("killed") /\ (st = <<>> \/ Ev.update) /\ Ev.complete
  /\ \/ ~Ev.exists /\ st = <<>> /\ st' = st
     \/ Ev.exists /\ st # <<>> /\ Ev.rows = st[1] /\ st' = st
     \/ Ev.exists /\ Written(Ev.rows, Todo, Old(Ev.update), Ev.stellar) /\ st' = <<Ev.rows>>

Next == \/ Load(<<>>)
        \/ EvPrepare
        \/ EvPrinted
        \/ EvRefused
        \/ EvRan
        \/ EvKilled
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
