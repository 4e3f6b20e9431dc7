------------------------------- MODULE XPath -------------------------------
(* The path language (P01, P02). A document is a sequence of nodes, the      *)
(* corpus first:                                                             *)
(*   [k, par, name, nameCps, ns, id, type, text, at, md, ch, map]            *)
(* k: kind; par: position of the owner (0: none); name: of a child of a meta *)
(* ns: <<>> or <<uri>>; id, type, text: <<>> or <<t>>, t code points;        *)
(* at: sequence of [uri, loc, v]; md, ch: positions of metadata / contained  *)
(* objects; map: prefixes declared at the node, sequence of <<prefix, uri>>. *)
(* A path is [abs, steps]; a step is                                         *)
(*   [ax, pre, name, args, alts, preds]   ax: child desc attr self parent    *)
(*                                            func group                     *)
(* a predicate is [p, cmp, val] with cmp "", "=" or "!=".                    *)
(* A result is [n, v]: n > 0 a node, n = 0 the value v (<<>> nothing), n = -1*)
(* undefined: the step has no meaning for its context.                       *)
EXTENDS Resolve

N(n) == [n |-> n, v |-> <<>>]
V(v) == [n |-> 0, v |-> v]
U == [n |-> -1, v |-> <<>>]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

RECURSIVE Uri(_, _, _)
Uri(doc, n, pre) == \* what a prefix stands for at node n; the prefix itself if unknown
  IF n = 0 THEN pre
  ELSE LET h == SelectSeq(doc[n].map, LAMBDA q : q[1] = pre) IN
       IF h # <<>> THEN h[1][2] ELSE Uri(doc, doc[n].par, pre)

InNs(doc, n, m, pre) == pre = "" \/ doc[m].ns = <<Uri(doc, n, pre)>>
NodeName(doc, n) == IF doc[n].k = "child" THEN doc[n].name ELSE doc[n].k
Kids(doc, n) == doc[n].md \o doc[n].ch

(* -------------------------------------------------------------- axes *)
Child(doc, n, pre, name) == SelectSeq(Kids(doc, n),
  LAMBDA m : (name = "*" \/ NodeName(doc, m) = name) /\ InNs(doc, n, m, pre))
RECURSIVE Subtree(_, _)
Subtree(doc, n) == Cons(n, Cat([j \in 1..Len(Kids(doc, n)) |-> Subtree(doc, Kids(doc, n)[j])]))
Desc(doc, n, pre, name) == SelectSeq(Subtree(doc, n),
  LAMBDA m : (name = "*" \/ NodeName(doc, m) = name) /\ InNs(doc, n, m, pre))

Pseudo(x) == IF x = <<>> THEN <<>> ELSE <<V(x)>>
AttrVals(doc, n, pre, name) ==
  LET at == doc[n].at
      uri == IF pre = "" THEN "" ELSE Uri(doc, n, pre)
  IN IF pre = "" /\ name = "id" THEN Pseudo(doc[n].id)
     ELSE IF pre = "" /\ name = "type" THEN Pseudo(doc[n].type)
     ELSE IF pre = "" /\ name = "name" THEN (IF doc[n].k = "child" THEN <<V(<<doc[n].nameCps>>)>> ELSE <<>>)
     ELSE IF name = "*"
     THEN LET h == SelectSeq(at, LAMBDA a : pre = "" \/ a.uri = uri) IN [j \in 1..Len(h) |-> V(<<h[j].v>>)]
     ELSE LET h == SelectSeq(at, LAMBDA a : a.uri = uri /\ a.loc = name) IN <<V(IF h = <<>> THEN <<>> ELSE <<h[1].v>>)>>

(* --------------------------------------------------------- functions *)
RECURSIVE IgtOf(_, _)
IgtOf(doc, n) == IF n = 0 \/ doc[n].k = "igt" THEN n ELSE IgtOf(doc, doc[n].par)
Ref(doc, n, a) == LET h == SelectSeq(doc[n].at, LAMBDA x : x.uri = "" /\ x.loc = a) IN IF h = <<>> THEN <<>> ELSE <<h[1].v>>
IdOr(x) == IF x = <<>> THEN <<0>> ELSE x[1]
RItem(doc, i) == [id |-> IdOr(doc[i].id), text |-> doc[i].text, c |-> Ref(doc, i, "content"), s |-> Ref(doc, i, "segmentation")]
RDoc(doc, g) == [j \in 1..Len(doc[g].ch) |-> LET t == doc[g].ch[j] IN
  [id |-> IdOr(doc[t].id), c |-> Ref(doc, t, "content"), s |-> Ref(doc, t, "segmentation"),
   items |-> [k \in 1..Len(doc[t].ch) |-> RItem(doc, doc[t].ch[k])]]]
ItemValue(doc, n) ==
  LET t == doc[n].par
      g == doc[t].par
      ti == CHOOSE j \in 1..Len(doc[g].ch) : doc[g].ch[j] = t
      v == Value(RDoc(doc, g), TRUE, ti, RItem(doc, n))
  IN IF v.k = "text" THEN V(<<v.t>>) ELSE IF v.k = "none" THEN V(<<>>) ELSE U

RefAttrs == <<"alignment", "content", "segmentation">>  \* in sorted order
IdsSorted == <<"alignment", "content", "nope", "ref", "segmentation">>  \* any attribute may be listed
Wanted(args) == IF args = <<>> THEN RefAttrs
                ELSE SelectSeq(IdsSorted, LAMBDA a : \E j \in 1..Len(args) : args[j] = a)
ObjsOf(doc, g) == doc[g].ch \o Cat([j \in 1..Len(doc[g].ch) |-> doc[doc[g].ch[j]].ch])
MentionsOf(doc, n, a) == LET r == Ref(doc, n, a) IN IF r = <<>> THEN <<>> ELSE Mentions(r[1])
ById(doc, g, id) == LET h == SelectSeq(ObjsOf(doc, g), LAMBDA m : doc[m].id = <<id>>) IN IF h = <<>> THEN <<U>> ELSE <<N(h[1])>>
Referent(doc, n, args) == Cat([j \in 1..Len(Wanted(args)) |->
  LET m == MentionsOf(doc, n, Wanted(args)[j]) IN Cat([k \in 1..Len(m) |-> ById(doc, IgtOf(doc, n), m[k])])])
Referrer(doc, n, args) == Cat([j \in 1..Len(Wanted(args)) |->
  LET os == SelectSeq(ObjsOf(doc, IgtOf(doc, n)), LAMBDA m : /\ doc[m].k = doc[n].k
                        /\ \E k \in 1..Len(MentionsOf(doc, m, Wanted(args)[j])) : <<MentionsOf(doc, m, Wanted(args)[j])[k]>> = doc[n].id)
  IN [k \in 1..Len(os) |-> N(os[k])]])
Func(doc, n, name, args) ==
  CASE name = "text" -> IF doc[n].k \in {"item", "meta", "child"} THEN <<V(doc[n].text)>> ELSE <<U>>
    [] name = "value" -> IF doc[n].k = "item" THEN <<ItemValue(doc, n)>> ELSE <<U>>
    [] name = "referent" -> IF doc[n].k \in {"tier", "item"} /\ doc[n].id # <<>> THEN Referent(doc, n, args) ELSE <<U>>
    [] name = "referrer" -> IF doc[n].k \in {"tier", "item"} /\ doc[n].id # <<>> THEN Referrer(doc, n, args) ELSE <<U>>

(* -------------------------------------------------------- evaluation *)
Ns(ns) == [j \in 1..Len(ns) |-> N(ns[j])]
RECURSIVE Eval(_, _, _), EvalSteps(_, _, _), EvalStep(_, _, _), Filter(_, _, _), Pred(_, _, _)
(* a single step from one context result *)
EvalStep(doc, s, x) ==
  IF x = U THEN <<U>>
  ELSE IF s.ax = "self" THEN <<x>>
  ELSE IF s.ax = "group" THEN Cat([j \in 1..Len(s.alts) |-> Eval(doc, s.alts[j], x)])
  ELSE IF x.n = 0 THEN <<U>>
  ELSE CASE s.ax = "child" -> Ns(Child(doc, x.n, s.pre, s.name))
         [] s.ax = "desc" -> Ns(Desc(doc, x.n, s.pre, s.name))
         [] s.ax = "attr" -> AttrVals(doc, x.n, s.pre, s.name)
         [] s.ax = "parent" -> IF doc[x.n].par = 0 THEN <<U>> ELSE <<N(doc[x.n].par)>>
         [] s.ax = "func" -> Func(doc, x.n, s.name, s.args)
(* "t", "f" or "u" *)
Pred(doc, p, x) ==
  IF x = U THEN "u"
  ELSE LET r == Eval(doc, p.p, x)
           eq(y) == y.v = <<p.val>> /\ y.n = 0
       IN IF U \in ToSet(r) THEN "u"
          ELSE IF p.cmp = "" THEN IF \E y \in ToSet(r) : y # V(<<>>) THEN "t" ELSE "f"
          ELSE IF p.cmp = "=" THEN IF \E y \in ToSet(r) : eq(y) THEN "t" ELSE "f"
          ELSE IF \E y \in ToSet(r) : eq(y) THEN "f" ELSE "t"
Filter(doc, ps, xs) ==
  IF ps = <<>> THEN xs
  ELSE LET g(x) == LET b == Pred(doc, Head(ps), x) IN IF b = "t" THEN <<x>> ELSE IF b = "f" THEN <<>> ELSE <<U>>
       IN Filter(doc, Tail(ps), Cat([j \in 1..Len(xs) |-> g(xs[j])]))
EvalSteps(doc, ss, xs) ==
  IF ss = <<>> THEN xs
  ELSE LET ys == Cat([j \in 1..Len(xs) |-> EvalStep(doc, Head(ss), xs[j])])
       IN EvalSteps(doc, Tail(ss), Filter(doc, Head(ss).preds, ys))
Eval(doc, p, x) == IF x = U \/ (p.abs /\ x.n = 0) THEN <<U>> ELSE EvalSteps(doc, p.steps, <<IF p.abs THEN N(1) ELSE x>>)

Defined(r) == U \notin ToSet(r)
(* A whole path as written: end is the separator it ends with, which makes   *)
(* it no path at all; no steps means nothing to look for.                    *)
Refuses(end) == end # ""
Answer(doc, p, x) == IF p.steps = <<>> /\ ~p.abs THEN <<>> ELSE Eval(doc, p, x)
First(r) == IF r = <<>> THEN V(<<>>) ELSE r[1]
=============================================================================
