------------------------------ MODULE TraceC29 ------------------------------
(* Documents are accepted as a whole or refused as a whole (C29).              *)
(* Case.kind: "nodes", "orgs" (Case.doc), "graph" (Case.lines) or "csv"        *)
(* (Case.cols, Case.rows); Case.broken: the text is no JSON.                   *)
EXTENDS Documents, TraceBase

Good == CASE Case.kind = "nodes" -> ~Case.broken /\ IsNodes(Case.doc)
          [] Case.kind = "orgs"  -> ~Case.broken /\ IsGroupsDoc(Case.doc)
          [] Case.kind = "graph" -> IsGraphDoc(Case.lines)
          [] OTHER               -> IsTable(Case.cols, Case.rows)
Open == CASE Case.kind = "nodes" -> ~Case.broken /\ OpenNodes(Case.doc)
          [] Case.kind = "orgs"  -> ~Case.broken /\ OpenGroups(Case.doc)
          [] OTHER -> FALSE
\* what is found in a good document
Size == CASE Case.kind \in {"nodes", "orgs"} -> Len(Case.doc.e)
          [] OTHER -> GraphSize(Case.lines)
Cut(via) == via = "packed" /\ Case.cut # 0
\* the outcome: accepted or refused
Outcome(via, accepted) == \/ st.open
                          \/ accepted = (st.good /\ ~Cut(via))

EvLoad == /\ Observe("load")
          /\ IF Ev.via = "nowhere" THEN ~Ev.ok
             ELSE /\ Outcome(Ev.via, Ev.ok)
                  /\ (Ev.ok /\ ~st.open /\ Ev.via \notin {"isps", "ctry"}) => Ev.n = Size
\* commands fail and print no results
EvCommand == /\ Observe("command")
             /\ (Ev.exit = 0) = Ev.printed
             /\ Outcome(Ev.what, Ev.exit = 0)
\* inputs a, b and c, b being the document: without it nothing from b on is reported
EvBulk == /\ Observe("bulk")
          /\ Outcome("bulk", Ev.exit = 0)
          /\ IF Ev.exit = 0 THEN Ev.labels = <<"a", "b", "c">> ELSE Ev.labels \in {<<>>, <<"a">>}
\* an output file that is no table is not touched
EvUpdate == /\ Observe("update")
            /\ (Ev.exit = 0) = st.good
            /\ IF st.good THEN Ev.longer ELSE Ev.same

Next == \/ Load([good |-> Good, open |-> Open])
        \/ EvLoad
        \/ EvCommand
        \/ EvBulk
        \/ EvUpdate
        \/ Done
Spec == TInit /\ [][Next]_tvars
=============================================================================
