----------------------------- MODULE Documents -----------------------------
(***************************************************************************)
(* The grammar of the documents the system reads. A JSON value is a tree:  *)
(*   [k |-> "obj", f |-> <<[n |-> name, v |-> value], ...>>],              *)
(*   [k |-> "arr", e |-> <<value, ...>>], and [k |-> ...] with "str",      *)
(*   "nat" (a number from 0 to 2^64 - 1), "num" (any other number),        *)
(*   "bool", "null".                                                       *)
(* A document is accepted as a whole or refused as a whole.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Named(v, name) == SelectSeq(v.f, LAMBDA x : x.n = name)
Value_(v, name) == Named(v, name)[1].v
Once(v, name)  == Len(Named(v, name)) = 1
Never(v, name) == Named(v, name) = <<>>
IsStr(v)       == v.k = "str"
IsStrs(v)      == v.k = "arr" /\ \A j \in DOMAIN v.e : IsStr(v.e[j])
\* there is at most one, and it is a text or null
MaybeText(v, name) == Never(v, name) \/ (Once(v, name) /\ Value_(v, name).k \in {"str", "null"})

RECURSIVE IsQuorumSet(_)
IsQuorumSet(v) ==
  /\ v.k = "obj"
  /\ Once(v, "threshold") /\ Value_(v, "threshold").k = "nat"
  /\ Once(v, "validators") /\ IsStrs(Value_(v, "validators"))
  /\ \/ Never(v, "innerQuorumSets")
     \/ /\ Once(v, "innerQuorumSets")
        /\ LET i == Value_(v, "innerQuorumSets") IN i.k = "arr" /\ \A j \in DOMAIN i.e : IsQuorumSet(i.e[j])
IsPlace(v) == v.k = "null" \/ (v.k = "obj" /\ MaybeText(v, "countryName"))
IsNode(v) ==
  /\ v.k = "obj"
  /\ Once(v, "publicKey") /\ IsStr(Value_(v, "publicKey"))
  /\ Never(v, "quorumSet") \/ (Once(v, "quorumSet") /\ IsQuorumSet(Value_(v, "quorumSet")))
  /\ MaybeText(v, "isp")
  /\ Never(v, "geoData") \/ (Once(v, "geoData") /\ IsPlace(Value_(v, "geoData")))
IsNodes(v) == v.k = "arr" /\ \A j \in DOMAIN v.e : IsNode(v.e[j])
IsGroup(v) == /\ v.k = "obj"
              /\ Once(v, "name") /\ IsStr(Value_(v, "name"))
              /\ Once(v, "validators") /\ IsStrs(Value_(v, "validators"))
IsGroupsDoc(v) == v.k = "arr" /\ \A j \in DOMAIN v.e : IsGroup(v.e[j])

\* Lists in place of objects are left open: an object may be read from the list of its fields.
RECURSIVE OpenQuorumSet(_)
OpenQuorumSet(v) ==
  \/ v.k = "arr"
  \/ v.k = "obj" /\ \E j \in DOMAIN v.f : /\ v.f[j].n = "innerQuorumSets" /\ v.f[j].v.k = "arr"
                                          /\ \E m \in DOMAIN v.f[j].v.e : OpenQuorumSet(v.f[j].v.e[m])
OpenNode(v) ==
  \/ v.k = "arr"
  \/ v.k = "obj" /\ \E j \in DOMAIN v.f : \/ v.f[j].n = "geoData" /\ v.f[j].v.k = "arr"
                                          \/ v.f[j].n = "quorumSet" /\ OpenQuorumSet(v.f[j].v)
OpenNodes(v)  == v.k = "arr" /\ \E j \in DOMAIN v.e : OpenNode(v.e[j])
OpenGroups(v) == v.k = "arr" /\ \E j \in DOMAIN v.e : v.e[j].k = "arr"

-----------------------------------------------------------------------------
(* AS relationship data: lines that are empty, comments or fields *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsLine(l) == \/ l.k \in {"empty", "comment"}
             \/ Len(l.f) >= 3 /\ l.f[1] \in Digits /\ l.f[2] \in Digits /\ l.f[3] \in {"0", "-1"}
IsGraphDoc(ls) == \A j \in DOMAIN ls : IsLine(ls[j])
Number(d) == CHOOSE x \in 0..9 : ToString(x) = d
Ends_(ls) == { Number(ls[j].f[m]) : j \in { j \in DOMAIN ls : ls[j].k = "fields" }, m \in {1, 2} }
GraphSize(ls) == IF Ends_(ls) = {} THEN 0 ELSE 1 + (CHOOSE x \in Ends_(ls) : \A y \in Ends_(ls) : y <= x)

-----------------------------------------------------------------------------
(* Rows of output files, by classes of their cells; an unreadable file is not updated *)
Fits(t, cell) == CASE t = "text"     -> TRUE
                   [] t = "bool"     -> cell = "bool"
                   [] t = "nat"      -> cell = "nat"
                   [] t = "float"    -> cell \in {"nat", "float", "neg"}
                   [] t = "optnat"   -> cell \in {"nat", "none"}
                   [] t = "optfloat" -> cell \in {"nat", "float", "neg", "none"}
IsRow(cols, row) == Len(row) = Len(cols) /\ \A j \in DOMAIN cols : Fits(cols[j], row[j])
IsTable(cols, rows) == \A j \in DOMAIN rows : IsRow(cols, rows[j])
=============================================================================
