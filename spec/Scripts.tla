------------------------------ MODULE Scripts ------------------------------
(* The command line scripts: partition (T01), sort (T02), validate (T03) and *)
(* query (T04), over documents and paths as in XPath.                        *)
EXTENDS XPath, TLC
G == INSTANCE RefGraph

Igts(doc) == doc[1].ch
Key(doc, n, p) == First(Eval(doc, p, N(n)))
KeyDefined(doc, n, p) == LET r == Eval(doc, p, N(n)) IN Defined(r) /\ \A j \in 1..Len(r) : r[j].n = 0

(* ------------------------------------------------------------ partition *)
(* files: sequence of the key sequences of their igts, a key <<>> or <<cps>> *)
FileName(k, def) == LET t == IF k = <<>> THEN def ELSE k[1] IN [j \in 1..Len(t) |-> IF t[j] = 58 THEN 45 ELSE t[j]]
Numbered(files) == Cat([f \in 1..Len(files) |-> [j \in 1..Len(files[f]) |-> [f |-> f, j |-> j, k |-> files[f][j]]]])
Names(files, def) == {FileName(x.k, def) : x \in ToSet(Numbered(files))}
Content(files, def, name) == LET h == SelectSeq(Numbered(files), LAMBDA x : FileName(x.k, def) = name)
                             IN [j \in 1..Len(h) |-> <<h[j].f, h[j].j>>]
KeysOf(doc, p) == [j \in 1..Len(Igts(doc)) |-> Key(doc, Igts(doc)[j], p).v]

(* ----------------------------------------------------------------- sort *)
(* tokens of a key: text, digits, text, ..., text; digits as their number    *)
(* [length, digits] without leading zeros                                    *)
RECURSIVE DropZeros(_), Tokens(_, _)
DropZeros(t) == IF t # <<>> /\ Head(t) = 48 THEN DropZeros(Tail(t)) ELSE t
Text0(s, i) == LET e == {k \in i..Len(s) : IsDigit(s[k])} IN IF e = {} THEN Len(s) ELSE (CHOOSE k \in e : \A q \in e : k <= q) - 1
Tokens(s, i) ==
  LET j == Text0(s, i)
      k == RunEnd(s, j + 1, "digit")
      d == DropZeros(SubSeq(s, j + 1, k))
  IN IF j = Len(s) THEN << SubSeq(s, i, j) >>
     ELSE << SubSeq(s, i, j), <<Len(d)>> \o d >> \o Tokens(s, k + 1)
SortKey(v) == IF v = <<>> THEN << <<>> >> ELSE Tokens(v[1], 1)
(* lexicographic: numbers, tokens, keys *)
Lt1(a, b) == \E k \in 1..Len(b) : (\A j \in 1..k - 1 : j <= Len(a) /\ a[j] = b[j]) /\ (k > Len(a) \/ a[k] < b[k])
Lt2(a, b) == \E k \in 1..Len(b) : (\A j \in 1..k - 1 : j <= Len(a) /\ a[j] = b[j]) /\ (k > Len(a) \/ Lt1(a[k], b[k]))
Lt3(a, b) == \E k \in 1..Len(b) : (\A j \in 1..k - 1 : j <= Len(a) /\ a[j] = b[j]) /\ (k > Len(a) \/ Lt2(a[k], b[k]))
(* order of the positions of a sequence of keys *)
Order(ks) ==
  LET rank == [i \in 1..Len(ks) |-> 1 + Cardinality({j \in 1..Len(ks) : Lt3(ks[j], ks[i]) \/ (~Lt3(ks[i], ks[j]) /\ j < i)})]
  IN [r \in 1..Len(ks) |-> CHOOSE i \in 1..Len(ks) : rank[i] = r]
Keys(doc, ns, ps) == TLCEval([j \in 1..Len(ns) |-> [k \in 1..Len(ps) |-> SortKey(Key(doc, ns[j], ps[k]).v)]])
By(doc, ns, ps) == LET ks == Keys(doc, ns, ps)
                       o == TLCEval(Order(ks)) IN TLCEval([j \in 1..Len(ns) |-> ns[o[j]]])
GDoc(doc, g) ==
  LET at(n) == LET h == SelectSeq(doc[n].at, LAMBDA a : a.uri = "") IN [k \in 1..Len(h) |-> <<h[k].loc, Mentions(h[k].v)>>]
      ts == doc[g].ch
  IN [j \in 1..Len(ts) |-> [id |-> doc[ts[j]].id, at |-> at(ts[j]),
        items |-> [k \in 1..Len(doc[ts[j]].ch) |-> [id |-> doc[doc[ts[j]].ch[k]].id, at |-> <<>>]]]]
Deps(doc, g, ras) == LET o == TLCEval(G!SortOrder(GDoc(doc, g), ras)) IN TLCEval([j \in 1..Len(o) |-> doc[g].ch[o[j]]])
(* opts: [igt, tier, item: key paths; deps: <<>> or <<refattrs>>]; the levels *)
(* are sorted one after the other, and within a level list after list        *)
Rearranged(doc, n, ns) == TLCEval([doc EXCEPT ![n].ch = ns])
RECURSIVE SortAll(_, _, _)
SortAll(doc, ns, ps) == IF ns = <<>> THEN doc ELSE LET d == Rearranged(doc, Head(ns), By(doc, doc[Head(ns)].ch, ps)) IN SortAll(d, Tail(ns), ps)
RECURSIVE DepsAll(_, _, _)
DepsAll(doc, ns, ras) == IF ns = <<>> THEN doc ELSE LET d == Rearranged(doc, Head(ns), Deps(doc, Head(ns), ras)) IN DepsAll(d, Tail(ns), ras)
SortIgts(doc, o) == IF o.igt = <<>> THEN doc ELSE SortAll(doc, <<1>>, o.igt)
SortTiers(doc, o) == IF o.tier # <<>> THEN SortAll(doc, doc[1].ch, o.tier) ELSE IF o.deps # <<>> THEN DepsAll(doc, doc[1].ch, o.deps[1]) ELSE doc
SortItems(doc, o) == IF o.item = <<>> THEN doc ELSE SortAll(doc, Cat([j \in 1..Len(doc[1].ch) |-> doc[doc[1].ch[j]].ch]), o.item)
Sorted(doc, o) == LET d1 == TLCEval(SortIgts(doc, o))
                      d2 == TLCEval(SortTiers(d1, o))
                      d == TLCEval(SortItems(d2, o)) IN [n \in 1..Len(d) |-> d[n].ch]
SortDefined(doc, o) == \A n \in 1..Len(doc) :
  CASE doc[n].k = "igt" -> /\ \A k \in 1..Len(o.igt) : KeyDefined(doc, n, o.igt[k])
                           /\ o.deps # <<>> => G!Acyclic(GDoc(doc, n), o.deps[1])
    [] doc[n].k = "tier" -> \A k \in 1..Len(o.tier) : KeyDefined(doc, n, o.tier[k])
    [] doc[n].k = "item" -> \A k \in 1..Len(o.item) : KeyDefined(doc, n, o.item[k])
    [] OTHER -> TRUE

(* ------------------------------------------------------------- validate *)
(* findings of a document: [o: object, r: rule, lv: level, sure]; files are  *)
(* judged with the ids of the corpora before them                            *)
RA == {"alignment", "content", "segmentation"}
Void(x) == x = <<>> \/ x = << <<>> >>
F(o, r, lv) == {[o |-> o, r |-> r, a |-> "", lv |-> lv, sure |-> TRUE]}
FA(o, r, a, lv, sure) == {[o |-> o, r |-> r, a |-> a, lv |-> lv, sure |-> sure]}
Level(r, k) == IF r = "id" /\ k = "xigtcorpus" THEN 20 ELSE IF r \in {"id", "type", "inside", "overlap"} THEN 30 ELSE 40
Before(ns, j) == {ns[i] : i \in 1..j - 1}
SameId(doc, n, ms) == ~Void(doc[n].id) /\ \E m \in ms : doc[m].id = doc[n].id
TierNamed(doc, g, ref) == {t \in ToSet(doc[g].ch) : doc[t].id = ref}
Within(doc, t, id) == {i \in ToSet(doc[t].ch) : doc[i].id = <<id>>}
ItemsBefore(doc, g, n) == {i \in ToSet(Cat([j \in 1..Len(doc[g].ch) |-> doc[doc[g].ch[j]].ch])) : i < n}
(* length of the value of an item, -1 if that cannot be told *)
Length(doc, i) == LET v == ItemValue(doc, i) IN IF v = U THEN -1 ELSE IF v.v = <<>> THEN 0 ELSE Len(v.v[1])
Spans(doc, t, n, a, wild) ==
  LET e == Ref(doc, n, a)[1]
      p == Parse(e)
      ps == Pieces(p)
      w(k) == Within(doc, t, ps[k].id)
      len(k) == Length(doc, CHOOSE i \in w(k) : TRUE)
      in == {k \in 1..Len(ps) : ps[k].span # <<>> /\ w(k) # {}}
      out(k) == ps[k].span[1] > len(k) \/ ps[k].span[2] > len(k)
      neg == \E k \in 1..Len(ps) : ps[k].span # <<>> /\ (ps[k].span[1] < 0 \/ ps[k].span[2] < 0)
      iv(k) == IF ps[k].span # <<>> THEN ps[k].span ELSE IF w(k) = {} THEN <<0, 0>> ELSE <<0, len(k)>>
      unk == \E k \in 1..Len(ps) : w(k) # {} /\ len(k) < 0
      over == \E j, k \in 1..Len(ps) : j < k /\ ps[j].id = ps[k].id /\ iv(j)[1] < iv(j)[2] /\ iv(k)[1] < iv(k)[2]
                                       /\ iv(j)[1] < iv(k)[2] /\ iv(k)[1] < iv(j)[2]
  IN IF wild \/ ~p.ok \/ neg \/ unk THEN FA(n, "inside", a, 30, FALSE) \cup FA(n, "overlap", a, 30, FALSE)
     ELSE (IF \E k \in in : out(k) THEN FA(n, "inside", a, 30, TRUE) ELSE {})
          \cup (IF over THEN FA(n, "overlap", a, 30, TRUE) ELSE {})
OfItem(doc, n, wild) ==
  LET tr == doc[n].par g == doc[tr].par IN
  (IF SameId(doc, n, ItemsBefore(doc, g, n)) THEN F(n, "unique", 40) ELSE {})
  \cup UNION {LET ts == TierNamed(doc, g, Ref(doc, tr, a)) IN
              IF Void(Ref(doc, n, a)) \/ Void(Ref(doc, tr, a)) \/ ts = {} THEN {}
              ELSE LET t == CHOOSE x \in ts : TRUE
                       m == Mentions(Ref(doc, n, a)[1])
                   IN (IF \E k \in 1..Len(m) : Within(doc, t, m[k]) = {} THEN FA(n, "itemref", a, 40, TRUE) ELSE {})
                      \cup Spans(doc, t, n, a, wild) : a \in RA}
OfTier(doc, n) ==
  LET g == doc[n].par IN
  (IF Void(doc[n].type) THEN F(n, "type", 30) ELSE {})
  \cup (IF SameId(doc, n, {t \in ToSet(doc[g].ch) : t < n}) THEN F(n, "unique", 40) ELSE {})
  \cup (IF \E i \in ToSet(doc[n].ch), a \in RA : Ref(doc, i, a) # <<>> /\ Ref(doc, n, a) = <<>> THEN F(n, "tieratt", 40) ELSE {})
  \cup UNION {IF ~Void(Ref(doc, n, a)) /\ TierNamed(doc, g, Ref(doc, n, a)) = {} THEN FA(n, "tierref", a, 40, TRUE) ELSE {} : a \in RA}
Findings(doc, earlier, wild) == UNION {
  LET k == doc[n].k IN
  (IF k \in {"xigtcorpus", "igt", "tier", "item"} /\ Void(doc[n].id) THEN F(n, "id", Level("id", k)) ELSE {})
  \cup CASE k = "xigtcorpus" -> IF ~Void(doc[n].id) /\ doc[n].id \in earlier THEN F(n, "unique", 40) ELSE {}
         [] k = "igt" -> IF SameId(doc, n, {m \in ToSet(doc[1].ch) : m < n}) THEN F(n, "unique", 40) ELSE {}
         [] k = "tier" -> OfTier(doc, n)
         [] k = "item" -> OfItem(doc, n, wild)
         [] OTHER -> {} : n \in 1..Len(doc)}
(* what a report [o, r] multiset and set of headed objects must look like *)
RECURSIVE Owners(_, _)
Owners(doc, n) == IF n = 0 THEN {} ELSE {n} \cup Owners(doc, doc[n].par)
Count(fs, o, r, sure) == Cardinality({f \in fs : f.o = o /\ f.r = r /\ (f.sure \/ ~sure)})
ReportOK(doc, fs, recs, heads) ==
  LET n(o, r) == Len(SelectSeq(recs, LAMBDA x : x.o = o /\ x.r = r)) IN
  /\ \A f \in fs : Count(fs, f.o, f.r, TRUE) <= n(f.o, f.r) /\ n(f.o, f.r) <= Count(fs, f.o, f.r, FALSE)
  /\ \A k \in 1..Len(recs) : \E f \in fs : f.o = recs[k].o /\ f.r = recs[k].r
  /\ ToSet(heads) = UNION {Owners(doc, recs[k].o) : k \in 1..Len(recs)}
  /\ Cardinality(ToSet(heads)) = Len(heads)

(* ---------------------------------------------------------------- query *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
NoneText == <<78, 111, 110, 101>>
Str(x) == IF x.v = <<>> THEN NoneText ELSE x.v[1]
RECURSIVE Join(_)
Join(xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN Str(xs[1]) ELSE Str(xs[1]) \o <<44, 32>> \o Join(Tail(xs))
RECURSIVE DropBlanks(_)
DropBlanks(t) == IF t # <<>> /\ Head(t) = 32 THEN DropBlanks(Tail(t)) ELSE t
(* a description is a sequence of [k, t], k: "lit" "query" "subquery" "match" *)
Describe(e, match) == Cat([j \in 1..Len(e.desc) |->
  CASE e.desc[j].k = "lit" -> e.desc[j].t [] e.desc[j].k = "query" -> e.qtext
    [] e.desc[j].k = "subquery" -> e.stext [] e.desc[j].k = "match" -> match])
(* distinct elements in the order first seen *)
RECURSIVE Firsts(_, _)
Firsts(xs, acc) == IF xs = <<>> THEN acc ELSE Firsts(Tail(xs), IF Head(xs) \in ToSet(acc) THEN acc ELSE Append(acc, Head(xs)))
Occurrences(xs, x) == Len(SelectSeq(xs, LAMBDA y : y = x))
(* groups with their counts, most frequent first, ties as first seen *)
Tally(xs) ==
  LET fs == Firsts(xs, <<>>)
      c == [j \in 1..Len(fs) |-> Occurrences(xs, fs[j])]
      rank == [i \in 1..Len(fs) |-> 1 + Cardinality({j \in 1..Len(fs) : c[j] > c[i] \/ (c[j] = c[i] /\ j < i)})]
  IN [r \in 1..Len(fs) |-> LET i == CHOOSE i \in 1..Len(fs) : rank[i] = r IN [n |-> c[i], g |-> fs[i]]]
Groups(doc, rs, sub) == [j \in 1..Len(rs) |-> Eval(doc, sub, rs[j])]
FindLines(e, rs) == [j \in 1..Len(rs) |-> DropBlanks(Describe(e, Str(rs[j])))]
CountLine(n, d) == Digits(n) \o <<9>> \o d
(* an agenda entry is [act, q, sub, qtext, stext, desc] *)
Printed(doc, e) == IF e.act = "find" THEN FindLines(e, Eval(doc, e.q, N(1))) ELSE <<>>
Results(doc, e) ==
  LET rs == Eval(doc, e.q, N(1)) IN
  CASE e.act = "find" -> <<>>
    [] e.act = "count" -> << CountLine(Len(rs), Describe(e, <<>>)) >>
    [] e.act = "unique" -> << CountLine(Cardinality(ToSet(rs)), Describe(e, <<>>)) >>
    [] e.act = "tally" -> LET t == Tally(Groups(doc, rs, e.sub)) IN [j \in 1..Len(t) |-> CountLine(t[j].n, Describe(e, Join(t[j].g)))]
Values(rs) == \A j \in 1..Len(rs) : rs[j].n = 0
AskDefined(doc, e) ==
  LET rs == Eval(doc, e.q, N(1)) IN
  /\ Defined(rs)
  /\ e.act \in {"find", "unique"} => Values(rs)
  /\ e.act = "tally" => \A j \in 1..Len(rs) : LET g == Eval(doc, e.sub, rs[j]) IN Defined(g) /\ Values(g)
FileLines(doc, agenda, head) ==
  << head >> \o Cat([k \in 1..Len(agenda) |-> Printed(doc, agenda[k])])
  \o Cat([k \in 1..Len(agenda) |-> Results(doc, agenda[k])]) \o << <<>> >>
=============================================================================
