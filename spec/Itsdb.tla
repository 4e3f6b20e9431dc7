------------------------------- MODULE Itsdb -------------------------------
(* Export of profiles (I03). doc: a corpus, as in XPath. A configuration is  *)
(* [start, skip, cells]; a cell [key, e]; key a text, an expression e is a   *)
(* record [op, a, n, t, es]:                                                 *)
(*   num n; text t; id; attr a; ntiers; tierid n (of the n-th tier, from 0); *)
(*   nitems t (in tiers of type t); first t (text of the first item of the   *)
(*   first tier of type t); join t (of that tier's items); or es (the first  *)
(*   that is not empty, else the last); cat es (as texts, one after another);*)
(*   input (the default); bad (not an expression).                           *)
(* Values: <<"none">>, <<"num", n>>, <<"text", t>>, <<"undef">>.             *)
EXTENDS XPath

VNone == [k |-> "none", n |-> 0, t |-> <<>>]
VNum(n) == [k |-> "num", n |-> n, t |-> <<>>]
VText(t) == [k |-> "text", n |-> 0, t |-> t]
VUndef == [k |-> "undef", n |-> 0, t |-> <<>>]
VOpt(x) == IF x = <<>> THEN VNone ELSE VText(x[1])
False(v) == v = VNone \/ v = VNum(0) \/ v = VText(<<>>)

Igts(doc) == doc[1].ch
OfType(doc, g, t) == SelectSeq(doc[g].ch, LAMBDA x : doc[x].type = <<t>>)
Content(doc, i) == LET v == ItemValue(doc, i) IN IF v = U THEN VUndef ELSE VOpt(v.v)
RECURSIVE Sum(_, _), JoinW(_)
Sum(doc, ts) == IF ts = <<>> THEN 0 ELSE Len(doc[Head(ts)].ch) + Sum(doc, Tail(ts))
JoinW(xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o <<32>> \o JoinW(Tail(xs))
FirstOf(doc, g, t) == LET ts == OfType(doc, g, t) IN
  IF ts = <<>> \/ doc[ts[1]].ch = <<>> THEN VText(<<>>) ELSE Content(doc, doc[ts[1]].ch[1])
JoinOf(doc, g, t) == LET ts == OfType(doc, g, t) IN
  IF ts = <<>> THEN VText(<<>>)
  ELSE LET cs == [k \in 1..Len(doc[ts[1]].ch) |-> Content(doc, doc[ts[1]].ch[k])] IN
       IF VUndef \in ToSet(cs) THEN VUndef ELSE VText(JoinW([k \in 1..Len(cs) |-> cs[k].t]))
Phrases == <<112, 104, 114, 97, 115, 101, 115>>
Words == <<119, 111, 114, 100, 115>>
Or2(a, b) == IF a = VUndef THEN VUndef ELSE IF False(a) THEN b ELSE a
Input(doc, g) == Or2(FirstOf(doc, g, Phrases), JoinOf(doc, g, Words))
Attr(doc, g, a) == LET h == SelectSeq(doc[g].at, LAMBDA x : x.uri = "" /\ x.loc = a) IN IF h = <<>> THEN VNone ELSE VText(h[1].v)
RECURSIVE Val(_, _, _), OrOf(_, _, _), CatT(_)
OrOf(doc, g, es) == IF Len(es) = 1 THEN Val(doc, g, es[1]) ELSE Or2(Val(doc, g, es[1]), OrOf(doc, g, Tail(es)))
CatT(vs) == IF vs = <<>> THEN <<>> ELSE vs[1].t \o CatT(Tail(vs))
Val(doc, g, e) ==
  CASE e.op = "num" -> VNum(e.n)
    [] e.op = "text" -> VText(e.t)
    [] e.op = "id" -> VOpt(doc[g].id)
    [] e.op = "attr" -> Attr(doc, g, e.a)
    [] e.op = "ntiers" -> VNum(Len(doc[g].ch))
    [] e.op = "tierid" -> IF e.n < Len(doc[g].ch) THEN VOpt(doc[doc[g].ch[e.n + 1]].id) ELSE VText(<<>>)
    [] e.op = "nitems" -> VNum(Sum(doc, OfType(doc, g, e.t)))
    [] e.op = "first" -> FirstOf(doc, g, e.t)
    [] e.op = "join" -> JoinOf(doc, g, e.t)
    [] e.op = "or" -> OrOf(doc, g, e.es)
    [] e.op = "cat" -> LET vs == [k \in 1..Len(e.es) |-> Val(doc, g, e.es[k])] IN IF VUndef \in ToSet(vs) THEN VUndef ELSE VText(CatT(vs))
    [] e.op = "input" -> Input(doc, g)
    [] e.op = "bad" -> VUndef

InputKey == <<105, 45, 105, 110, 112, 117, 116>>
DefaultCells == << [key |-> InputKey, e |-> [op |-> "input", a |-> "", n |-> 0, t |-> <<>>, es |-> <<>>]] >>
(* of several cells for one key the last counts *)
LastOf(cells, key) == CHOOSE k \in 1..Len(cells) : cells[k].key = key /\ \A j \in k + 1..Len(cells) : cells[j].key # key
Row(doc, g, cells) == {<<cells[k].key, Val(doc, g, cells[k].e)>> : k \in {k \in 1..Len(cells) : LastOf(cells, cells[k].key) = k}}
Rows(doc, c) == [k \in 1..Len(Igts(doc)) |-> [id |-> c.start + (k - 1) * c.skip, row |-> Row(doc, Igts(doc)[k], c.cells)]]
IsDefined(doc, c) == \A k \in 1..Len(Igts(doc)), j \in 1..Len(c.cells) : Val(doc, Igts(doc)[k], c.cells[j].e) # VUndef
=============================================================================
