------------------------------ MODULE IgtIndex ------------------------------
(* Lookups in an IGT and the reference relation (C05, C06).                  *)
(* doc: sequence of tiers [id, at, items], items: sequence of [id, at];      *)
(* id: <<>> or <<name>>; at: sequence of <<attribute, mention list>> where a *)
(* mention list is a sequence of names. Objects are positions <<ti, ii>>,    *)
(* tiers <<ti, 0>>, nothing <<>>.                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Items(doc) == \* positions of all items, in document order
  FoldLeft(LAMBDA acc, ti : acc \o [ii \in 1..Len(doc[ti].items) |-> <<ti, ii>>], <<>>, [k \in 1..Len(doc) |-> k])
Tiers(doc) == [ti \in 1..Len(doc) |-> <<ti, 0>>]
Obj(doc, p) == IF p[2] = 0 THEN doc[p[1]] ELSE doc[p[1]].items[p[2]]
Having(doc, ps, id) == SelectSeq(ps, LAMBDA p : Obj(doc, p).id = <<id>>)

GetItem(doc, id) == LET h == Having(doc, Items(doc), id) IN IF h = <<>> THEN <<>> ELSE h[Len(h)]
GetTier(doc, id) == LET h == Having(doc, Tiers(doc), id) IN IF h = <<>> THEN <<>> ELSE h[1]
GetAny(doc, id) == IF GetTier(doc, id) # <<>> THEN GetTier(doc, id) ELSE GetItem(doc, id)

Attr(x, a) == LET h == SelectSeq(x.at, LAMBDA q : q[1] = a) IN IF h = <<>> THEN <<>> ELSE h[1][2]

(* referents of an id by attribute a; referrers of an id by attribute a *)
Referents(doc, id, a) == Attr(Obj(doc, GetAny(doc, id)), a)
RECURSIVE Dedup(_, _)
Dedup(s, acc) == IF s = <<>> THEN acc ELSE Dedup(Tail(s), IF Head(s) \in ToSet(acc) THEN acc ELSE Append(acc, Head(s)))
Referrers(doc, id, a) ==
  LET others == IF GetTier(doc, id) # <<>> THEN Tiers(doc) ELSE Items(doc)
      by == SelectSeq(others, LAMBDA p : Obj(doc, p).id # <<>> /\ id \in ToSet(Attr(Obj(doc, p), a)))
  IN Dedup([k \in 1..Len(by) |-> Obj(doc, by[k]).id[1]], <<>>)
Known(doc, id) == GetAny(doc, id) # <<>>

(* edits of a document; positions are 1-based, k the place to insert at *)
Cut(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Put(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
Without(at, a) == SelectSeq(at, LAMBDA q : q[1] # a)
SetAt(at, a, v) == Append(Without(at, a), <<a, v>>)
Edit(doc, e) ==
  CASE e.op = "addtier" -> Put(doc, e.ti, e.x)
    [] e.op = "deltier" -> Cut(doc, e.ti)
    [] e.op = "settier" -> [doc EXCEPT ![e.ti] = e.x]
    [] e.op = "additem" -> [doc EXCEPT ![e.ti].items = Put(@, e.ii, e.y)]
    [] e.op = "delitem" -> [doc EXCEPT ![e.ti].items = Cut(@, e.ii)]
    [] e.op = "setitem" -> [doc EXCEPT ![e.ti].items[e.ii] = e.y]
    [] e.op = "clear"   -> [doc EXCEPT ![e.ti].items = <<>>]
    [] e.op = "move"    -> LET y == doc[e.ti].items[e.ii] IN
                           [[doc EXCEPT ![e.ti].items = Cut(@, e.ii)] EXCEPT ![e.tj].items = Append(@, y)]
    [] e.op = "rename"  -> IF e.ii = 0 THEN [doc EXCEPT ![e.ti].id = e.id] ELSE [doc EXCEPT ![e.ti].items[e.ii].id = e.id]
    [] e.op = "attr"    -> IF e.ii = 0 THEN [doc EXCEPT ![e.ti].at = SetAt(@, e.a, e.v)]
                           ELSE [doc EXCEPT ![e.ti].items[e.ii].at = SetAt(@, e.a, e.v)]
    [] e.op = "unattr"  -> IF e.ii = 0 THEN [doc EXCEPT ![e.ti].at = Without(@, e.a)]
                           ELSE [doc EXCEPT ![e.ti].items[e.ii].at = Without(@, e.a)]
    [] e.op = "reverse" -> Reverse(doc)
    [] e.op = "none"    -> doc
(* ids stay unique where the containers demand it *)
UniqueIds(doc) ==
  LET u(xs) == \A i, j \in 1..Len(xs) : i # j /\ xs[i].id # <<>> => xs[i].id # xs[j].id
  IN u(doc) /\ \A ti \in 1..Len(doc) : u(doc[ti].items)
ItemIdsUnique(doc) == LET is == Items(doc) IN
  \A i, j \in 1..Len(is) : i # j /\ Obj(doc, is[i]).id # <<>> => Obj(doc, is[i]).id # Obj(doc, is[j]).id
=============================================================================
