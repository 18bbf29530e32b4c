------------------------------ MODULE TraceC20 ------------------------------
(* Graphs survive being written and read as AS relationship data.              *)
EXTENDS AsRel, TraceBase

EvRead == Observe("read") /\ ReadsAs(Ev.g, LinksOfLines(Case.lines))
Back(g) == LET L == Links(Case.g)
           IN  IF OneWay(L) = {} THEN ReadsAs(g, L)
               \* deviation DirectedReversed (known finding): faithful or exactly reversed, nothing else
               ELSE ReadsAs(g, L) \/ ReadsAs(g, WithOneWayReversed(L))
EvBack == Observe("back") /\ Back(Ev.g)
\* the written text itself, as lines: each link is mentioned once
EvWritten == /\ Observe("written")
             /\ LET L == Links(Case.g)
                    T == { <<Ev.lines[k].a, Ev.lines[k].b>> : k \in { j \in DOMAIN Ev.lines : Ev.lines[j].k = "link" } }
                IN  /\ T \cup { <<p[2], p[1]>> : p \in T } = L \cup { <<p[2], p[1]>> : p \in L }
                    /\ Ev.comment = Case.comment
\* without the deviation
EvFaithful == Observe("faithful") /\ ReadsAs(Ev.g, Links(Case.g))

Next == \/ Load(<<>>)
        \/ EvRead
        \/ EvBack
        \/ EvWritten
        \/ EvFaithful
        \/ Done
Spec == TInit /\ [][Next]_tvars
==============================================================================
