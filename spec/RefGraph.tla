------------------------------ MODULE RefGraph ------------------------------
(* Walks along the references of tiers (G01, G02) and their order by         *)
(* dependency (G03). Documents as in IgtIndex. A step of a walk is           *)
(* [t, a, r, is]: tier, attribute, tier reached, item numbers there.         *)
EXTENDS IgtIndex

Specifies(x, a) == \E k \in 1..Len(x.at) : x.at[k][1] = a
FirstAttr(x, ras) == LET h == SelectSeq(ras, LAMBDA a : Specifies(x, a)) IN IF h = <<>> THEN <<>> ELSE <<h[1]>>
(* the tier an attribute of a tier names, 0 if none *)
Target(doc, ti, a) == LET m == Attr(doc[ti], a) IN
  IF m = <<>> THEN 0 ELSE LET p == GetAny(doc, m[1]) IN IF p = <<>> \/ p[2] # 0 THEN 0 ELSE p[1]

MentionedBy(doc, ti, is, a) == UNION {ToSet(Attr(doc[ti].items[is[k]], a)) : k \in 1..Len(is)}
IdSet(doc, ti, is) == UNION {ToSet(doc[ti].items[is[k]].id) : k \in 1..Len(is)}
All(doc, ti) == [k \in 1..Len(doc[ti].items) |-> k]

RECURSIVE Anc(_, _, _, _, _)
Anc(doc, ti, is, ras, seen) ==
  LET f == FirstAttr(doc[ti], ras) IN
  IF f = <<>> THEN [steps |-> <<>>, end |-> "end"]
  ELSE LET r == Target(doc, ti, f[1]) IN
       IF r = 0 THEN [steps |-> <<>>, end |-> "dangling"]
       ELSE LET ms == MentionedBy(doc, ti, is, f[1])
                js == SelectSeq(All(doc, r), LAMBDA k : ToSet(doc[r].items[k].id) \cap ms # {})
                st == [t |-> ti, a |-> f[1], r |-> r, is |-> js]
            IN IF r \in seen THEN [steps |-> <<st>>, end |-> "end"]
               ELSE LET rest == Anc(doc, r, js, ras, seen \cup {r}) IN
                    [steps |-> <<st>> \o rest.steps, end |-> rest.end]
Ancestors(doc, ti, is, ras) == Anc(doc, ti, is, ras, {ti})

(* tiers that refer to tier ti by attribute a, in document order *)
Referring(doc, ti, a) ==
  SelectSeq([k \in 1..Len(doc) |-> k], LAMBDA k : doc[k].id # <<>> /\ ToSet(doc[ti].id) \cap ToSet(Attr(doc[k], a)) # {})
StepsTo(doc, ti, is, a) ==
  LET rs == Referring(doc, ti, a)
      ids == IdSet(doc, ti, is)
  IN [k \in 1..Len(rs) |->
        [t |-> ti, a |-> a, r |-> rs[k],
         is |-> SelectSeq(All(doc, rs[k]), LAMBDA j : ToSet(Attr(doc[rs[k]].items[j], a)) \cap ids # {})]]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE Desc(_, _, _, _, _)
Desc(doc, queue, ras, first, seen) ==
  IF queue = <<>> THEN <<>>
  ELSE LET ti == Head(queue)[1]
           is == Head(queue)[2]
           live == SelectSeq(ras, LAMBDA a : Referring(doc, ti, a) # <<>>)
           use == IF first /\ live # <<>> THEN <<live[1]>> ELSE live
           new == SelectSeq(use, LAMBDA a : <<ti, a>> \notin seen)
           out == Flatten([k \in 1..Len(new) |-> StepsTo(doc, ti, is, new[k])])
       IN out \o Desc(doc, Tail(queue) \o [k \in 1..Len(out) |-> <<out[k].r, out[k].is>>], ras, first,
                      seen \cup {<<ti, new[k]>> : k \in 1..Len(new)})
Descendants(doc, ti, is, ras, first) == Desc(doc, << <<ti, is>> >>, ras, first, {})

(* ---- order of tiers by dependency *)
Parent(doc, ti, ras) == LET f == FirstAttr(doc[ti], ras) IN IF f = <<>> THEN 0
  ELSE LET m == Attr(doc[ti], f[1]) p == IF Len(m) # 1 THEN <<>> ELSE GetTier(doc, m[1]) IN IF p = <<>> THEN 0 ELSE p[1]
Prio(doc, ti, ras) == LET f == FirstAttr(doc[ti], ras) IN IF f = <<>> THEN 0 ELSE CHOOSE k \in 1..Len(ras) : ras[k] = f[1] /\ \A j \in 1..k - 1 : ras[j] # f[1]
RECURSIVE Rooted(_, _, _, _)
Rooted(doc, ti, ras, seen) == LET p == Parent(doc, ti, ras) IN
  p = 0 \/ (p \notin seen /\ Rooted(doc, p, ras, seen \cup {p}))
Acyclic(doc, ras) == \A ti \in 1..Len(doc) : Rooted(doc, ti, ras, {ti})
(* children by priority of their attribute, then position *)
Kids(doc, ti, ras) == Flatten([p \in 1..Len(ras) |->
   SelectSeq([k \in 1..Len(doc) |-> k], LAMBDA k : Parent(doc, k, ras) = ti /\ Prio(doc, k, ras) = p)])
RECURSIVE Pre(_, _, _)
Pre(doc, ts, ras) == Flatten([k \in 1..Len(ts) |-> <<ts[k]>> \o Pre(doc, Kids(doc, ts[k], ras), ras)])
(* the order of all tiers that are neither on nor below a cycle *)
SortOrder(doc, ras) == Pre(doc, SelectSeq([k \in 1..Len(doc) |-> k], LAMBDA k : Parent(doc, k, ras) = 0), ras)
(* does the order `got` of tier numbers satisfy the guarantee? *)
GoodOrder(doc, ras, got) ==
  /\ Len(got) = Len(doc) /\ ToSet(got) = 1..Len(doc)
  /\ SelectSeq(got, LAMBDA k : Rooted(doc, k, ras, {k})) = SortOrder(doc, ras)
=============================================================================
