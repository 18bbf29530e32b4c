------------------------------- MODULE MCBulk -------------------------------
(* Chains of bulk runs over a few labels, each of which may be interrupted at  *)
(* any row. Every analysis yields a new version, so that reuse is visible.     *)
EXTENDS Bulk, TLC
CONSTANTS Labels, MaxRuns
VARIABLES s, runs, version, first, wanted
vars == <<s, runs, version, first, wanted>>
Less(a, b) == a < b

\* first[l]: version of the row of label l that was written first and never lost since (0: none)
Init == s = Idle(<<>>) /\ runs = 0 /\ version = 1 /\ first = [l \in Labels |-> 0] /\ wanted = {}
Start == /\ runs < MaxRuns
         /\ \E update \in BOOLEAN : \E L \in SUBSET Labels :
              /\ MayRun(s, update) /\ (update => s.disk # <<>>)
              /\ s' = Begin(s, update, L, Less)
              /\ wanted' = L \cup (IF update THEN LabelsOf(Rows(s)) ELSE {})
         /\ runs' = runs + 1 /\ UNCHANGED <<version, first>>
WriteRow == /\ s.running /\ s.done < Len(s.tasks)
            /\ LET l == s.tasks[s.done + 1]
                   row == IF l \in LabelsOf(s.old) THEN RowOf(s.old, l) ELSE [label |-> l, v |-> version]
               IN  /\ CanWrite(s, row) /\ s' = Write(s, row)
                   /\ first' = IF first[l] = 0 THEN [first EXCEPT ![l] = row.v] ELSE first
            /\ version' = version + 1 /\ UNCHANGED <<runs, wanted>>
Finish == CanEnd(s) /\ s' = Stop(s) /\ UNCHANGED <<runs, version, first, wanted>>
\* killed: rows not yet written again are gone
Kill == /\ s.running /\ s' = Stop(s)
        /\ first' = [l \in Labels |-> IF l \in LabelsOf(Rows(s)) THEN first[l] ELSE 0]
        /\ UNCHANGED <<runs, version, wanted>>
Next == Start \/ WriteRow \/ Finish \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(WriteRow) /\ WF_vars(Finish)

Sorted == \A a, b \in DOMAIN Rows(s) : a < b => Rows(s)[a].label < Rows(s)[b].label
Prefix == s.running => /\ Len(Rows(s)) = s.done
                       /\ \A k \in 1..s.done : Rows(s)[k].label = s.tasks[k]
Kept   == \A k \in DOMAIN Rows(s) : Rows(s)[k].v = first[Rows(s)[k].label]
Inv == Sorted /\ Prefix /\ Kept
\* a run that is not interrupted ends with a row for everything wanted
Complete == [][ Finish => LabelsOf(Rows(s)) = wanted ]_vars
Ends == s.running ~> ~s.running
=============================================================================
