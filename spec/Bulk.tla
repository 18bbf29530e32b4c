-------------------------------- MODULE Bulk --------------------------------
(***************************************************************************)
(* The bulk analyzer as a state machine over its output file.              *)
(*   disk   <<>>: there is no output file; <<rows>>: the rows in it        *)
(*   tasks  labels of the current run in order (<<>>: nothing running)     *)
(*   old    the rows there were when the run began                         *)
(*   done   number of rows written by the run so far                       *)
(* A row is a record with a field `label`; what else is in it is up to     *)
(* those who use this module. Labels are ordered by Less.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LabelsOf(rows) == { rows[k].label : k \in DOMAIN rows }
RowOf(rows, l) == rows[CHOOSE k \in DOMAIN rows : rows[k].label = l]
Rows(s) == IF s.disk = <<>> THEN <<>> ELSE s.disk[1]
Idle(disk) == [disk |-> disk, running |-> FALSE, tasks |-> <<>>, old |-> <<>>, done |-> 0]

\* a run that may write: the file does not exist yet or is to be updated
MayRun(s, update) == ~s.running /\ (s.disk = <<>> \/ update)
\* Begin truncates the file: rows to be reused are only in memory until they are written again
Begin(s, update, labels, Less(_, _)) ==
  LET old == IF update THEN Rows(s) ELSE <<>>
  IN  [disk |-> << <<>> >>, running |-> TRUE, tasks |-> SetToSortSeq(labels \cup LabelsOf(old), Less),
       old |-> old, done |-> 0]
\* the next row, reused if there was one
CanWrite(s, row) == /\ s.running /\ s.done < Len(s.tasks)
                    /\ row.label = s.tasks[s.done + 1]
                    /\ row.label \in LabelsOf(s.old) => row = RowOf(s.old, row.label)
Write(s, row) == [s EXCEPT !.disk = << Append(Rows(s), row) >>, !.done = s.done + 1]
CanEnd(s) == s.running /\ s.done = Len(s.tasks)
Stop(s) == Idle(s.disk)
=============================================================================
