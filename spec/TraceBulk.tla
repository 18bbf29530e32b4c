------------------------------ MODULE TraceBulk ------------------------------
(* Recorded runs of the bulk analyzer (C22, C23).                              *)
(* Case.docs: FBASs with groups and the class `form` of their standard form.   *)
(* Case.files: [kind, doc, parts] input files, parts: the parts of the name.   *)
(* st.b: the machine of module Bulk; st.E: expected results by document;       *)
(* st.hash: hashes seen by class of standard form.                             *)
EXTENDS BulkRows, TraceBase
B == INSTANCE Bulk

Underscore == 95
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<Underscore>> \o Join(Tail(ps))
Nodes_ == <<110, 111, 100, 101, 115>>
Orgs_  == <<111, 114, 103, 97, 110, 105, 122, 97, 116, 105, 111, 110, 115>>
LabelIn(f, ignore) == Join(SelectSeq(f.parts, LAMBDA p : p # Nodes_ /\ p # Orgs_ /\ p # ignore))
Files(kind) == { k \in SetOf(Ev.inputs) : Case.files[k].kind = kind }
NodeLabels == { LabelIn(Case.files[k], Ev.ignore) : k \in Files("nodes") }
OrgLabels  == { LabelIn(Case.files[k], Ev.ignore) : k \in Files("orgs") }
FileFor(labels, ignore, inputs, l) == CHOOSE k \in SetOf(inputs) : Case.files[k].kind = "nodes" /\ LabelIn(Case.files[k], ignore) = l

\* a row written by a run: reused or a true analysis
FreshOk(row, run) ==
  LET f == Case.files[FileFor(run.labels, run.ignore, run.inputs, row.label)]
  IN  RowOk(row, Case.docs[f.doc], st.E[f.doc], row.label \in run.orgs)
FormOf(row, run) == Case.docs[Case.files[FileFor(run.labels, run.ignore, run.inputs, row.label)].doc].form
\* rows written after b by the current run make it b2
RECURSIVE WriteAll(_, _)
WriteAll(b, rows) == IF rows = <<>> THEN <<b>>
                     ELSE IF B!CanWrite(b, rows[1]) THEN WriteAll(B!Write(b, rows[1]), Tail(rows)) ELSE <<>>
\* the first b.done rows are on disk already; `rows` is all that is seen now
Advance(b, run, rows) ==
  /\ Len(rows) >= b.done /\ SubSeq(rows, 1, b.done) = B!Rows(b)
  /\ WriteAll(b, SubSeq(rows, b.done + 1, Len(rows))) # <<>>
  /\ \A k \in (b.done + 1)..Len(rows) :
       rows[k].label \notin B!LabelsOf(b.old) => FreshOk(rows[k], run)
Advanced(b, rows) == WriteAll(b, SubSeq(rows, b.done + 1, Len(rows)))[1]
\* equal hashes exactly for equal standard forms
HashesOk(h) == \A x, y \in h : (x[1] = y[1]) <=> (x[2] = y[2])
FreshHashes(b, run, rows) == { <<FormOf(rows[k], run), rows[k].hash>> : k \in { j \in (b.done + 1)..Len(rows) : rows[j].label \notin B!LabelsOf(b.old) } }

RunOf == [labels |-> NodeLabels, orgs |-> OrgLabels, ignore |-> Ev.ignore, inputs |-> Ev.inputs]

-----------------------------------------------------------------------------
\* the output file was prepared by the test: rows that no analysis would give
EvPrepare == /\ IsEvent("prepare") /\ ~st.b.running
             /\ st' = [st EXCEPT !.b = B!Idle(<<Ev.rows>>)]
EvRemove  == /\ IsEvent("remove") /\ ~st.b.running
             /\ st' = [st EXCEPT !.b = B!Idle(<<>>)]
\* a run with its output on the terminal: the machine on a scratch file
EvPrinted ==
  /\ IsEvent("printed")
  /\ LET b == B!Begin(B!Idle(<<>>), FALSE, NodeLabels, Before)
     IN  /\ Ev.exit = 0 /\ Ev.complete
         /\ Advance(b, RunOf, Ev.rows)
         /\ B!CanEnd(Advanced(b, Ev.rows))
         /\ LET h == st.hash \cup FreshHashes(b, RunOf, Ev.rows)
            IN  HashesOk(h) /\ st' = [st EXCEPT !.hash = h]
\* a run that must not do anything: output exists, or an input is not recognised
EvRefused ==
  /\ Observe("refused")
  /\ Files("other") # {} \/ ~B!MayRun(st.b, Ev.update)
  /\ Ev.exit # 0 /\ Ev.untouched
EvBegin ==
  /\ IsEvent("begin") /\ B!MayRun(st.b, Ev.update) /\ Files("other") = {}
  /\ st' = [st EXCEPT !.b = B!Begin(st.b, Ev.update, NodeLabels, Before), !.run = RunOf]
\* the output while input `label` is being held back: everything before it has been written, nothing else
EvHeld ==
  /\ IsEvent("held") /\ st.b.running /\ Ev.complete
  /\ Advance(st.b, st.run, Ev.rows)
  /\ LET b == Advanced(st.b, Ev.rows)
         h == st.hash \cup FreshHashes(st.b, st.run, Ev.rows)
     IN  /\ b.done < Len(b.tasks) /\ b.tasks[b.done + 1] = Ev.label
         /\ HashesOk(h)
         /\ st' = [st EXCEPT !.b = b, !.hash = h]
EvKill == /\ IsEvent("kill") /\ st.b.running /\ Ev.complete
          /\ Ev.rows = B!Rows(st.b)
          /\ st' = [st EXCEPT !.b = B!Idle(IF Ev.exists THEN <<Ev.rows>> ELSE <<>>)]
\* the input that comes next is no document: the run fails and leaves what it has written
EvBroke == /\ IsEvent("broke") /\ st.b.running /\ Ev.complete /\ Ev.exit > 0
           /\ Ev.exists /\ Ev.rows = B!Rows(st.b)
           /\ st' = [st EXCEPT !.b = B!Idle(<<Ev.rows>>)]
EvEnd ==
  /\ IsEvent("end") /\ st.b.running /\ Ev.complete /\ Ev.exit = 0
  /\ Advance(st.b, st.run, Ev.rows)
  /\ LET b == Advanced(st.b, Ev.rows)
         h == st.hash \cup FreshHashes(st.b, st.run, Ev.rows)
     IN  /\ B!CanEnd(b) /\ HashesOk(h)
         /\ st' = [st EXCEPT !.b = B!Stop(b), !.hash = h]

Next == \/ Load([b |-> B!Idle(<<>>), run |-> <<>>, E |-> [k \in DOMAIN Case.docs |-> Expected(Case.docs[k])], hash |-> {}])
        \/ EvPrepare
        \/ EvRemove
        \/ EvPrinted
        \/ EvRefused
        \/ EvBegin
        \/ EvHeld
        \/ EvKill
        \/ EvBroke
        \/ EvEnd
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
