------------------------------ MODULE Equality ------------------------------
(* Structural equality of model objects (C04). A node is a record            *)
(*   [k, id, type, ns, name, attrs, text, md, ch, map]                       *)
(* optional fields are <<>> or <<value>>, attrs a sequence of <<key, value>>,*)
(* md and ch sequences of nodes, map the prefix table (not compared).        *)
EXTENDS Integers, Sequences, SequencesExt

RECURSIVE Equal(_, _)
Equal(a, b) ==
  /\ a.k = b.k /\ a.k # "other" /\ b.k # "other"
  /\ a.id = b.id /\ a.type = b.type /\ a.ns = b.ns /\ a.name = b.name /\ a.text = b.text
  /\ ToSet(a.attrs) = ToSet(b.attrs)
  /\ Len(a.md) = Len(b.md) /\ \A j \in 1..Len(a.md) : Equal(a.md[j], b.md[j])
  /\ Len(a.ch) = Len(b.ch) /\ \A j \in 1..Len(a.ch) : Equal(a.ch[j], b.ch[j])
=============================================================================
