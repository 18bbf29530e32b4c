----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of all trace specifications. A trace file has one recorded  *)
(* case per line: the input plus the sequence `ev` of observed events.     *)
(* Every case is an initial state; its events must be consumed one by one, *)
(* each by an action of the specification. An event that no action allows  *)
(* (a wrong answer, a panic, a call that hangs) leaves the trace spec      *)
(* without a successor: TLC reports a deadlock at that event.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES c,   \* which case
          i,   \* next event (0: case not loaded yet)
          st   \* state of the specification

tvars == <<c, i, st>>

Case == Trace[c]
Ev   == Case.ev[i]

TInit == c \in DOMAIN Trace /\ i = 0 /\ st = <<>>

\* computes what the specification knows about the case
Load(x) == i = 0 /\ i' = 1 /\ c' = c /\ st' = x

IsEvent(op) == /\ i \in DOMAIN Case.ev
               /\ Case.ev[i].op = op
               /\ i' = i + 1
               /\ c' = c
\* an event that only observes
Observe(op) == IsEvent(op) /\ st' = st

Done == i > Len(Case.ev) /\ UNCHANGED tvars
=============================================================================
