------------------------------- MODULE Codec -------------------------------
(* XigtXML and XigtJSON as two notations for corpora (X01, X02, X03).        *)
(*                                                                           *)
(* A corpus as the code gives it is a tree of nodes                          *)
(*   [k, id, type, ns, name, attrs, text, md, ch, map]                       *)
(* attrs: sequence of <<key, value>>, keys "{uri}local" or "local"; map: <<>>*)
(* or <<sequence of <<prefix, uri>> >>. Its meaning is the same tree with    *)
(* attrs a set and tab the prefix table in scope (a set of pairs).           *)
(*                                                                           *)
(* An XML element is [pre, loc, decl, at, text, blank, ch]: the name as      *)
(* written, the declarations <<prefix, uri>>, attributes [pre, loc, v], the  *)
(* text before the first child (<<>> if none; blank: only whitespace).       *)
(* A JSON object is [bad, id, type, at, ns, decl, pre, name, text, md, ch];  *)
(* at: attributes [pre, loc, v]; bad: has members the format does not know.  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

(* a table: a set of <<prefix, uri>>, one uri per prefix *)
Merge(tab, decl) == {p \in tab : \A q \in decl : q[1] # p[1]} \cup decl
(* the empty prefix stands for the default namespace of elements; it may be  *)
(* mapped to the empty uri, which is as good as not at all. JSON writes it   *)
(* with its colon: ":" as pre.                                               *)
Norm(tab) == tab \ {<<"", "">>}
UriIn(tab, pre) == LET h == {p \in tab : p[1] = pre} IN IF h = {} THEN <<>> ELSE <<(CHOOSE p \in h : TRUE)[2]>>
XMLNS == "http://www.w3.org/XML/1998/namespace"
Colon(pre) == IF pre = ":" THEN "" ELSE pre
Key(tab, a) == IF a.pre = "" THEN a.loc
               ELSE LET u == UriIn(tab, Colon(a.pre)) IN
                    IF u # <<>> THEN "{" \o u[1] \o "}" \o a.loc
                    ELSE IF a.pre = "xml" THEN "{" \o XMLNS \o "}" \o a.loc
                    ELSE a.pre \o ":" \o a.loc

HasMd(k) == k \in {"corpus", "igt", "tier"}
Below(k) == CASE k = "corpus" -> "igt" [] k = "igt" -> "tier" [] k = "tier" -> "item" [] k = "metadata" -> "meta"
              [] k \in {"meta", "child"} -> "child" [] k = "item" -> "none"
TagOf(k) == IF k = "corpus" THEN "xigt-corpus" ELSE k

(* ------------------------------------------------ the meaning of a node *)
RECURSIVE Mean(_, _)
(* own tables extend (acc) what is in scope above *)
Mean(n, tab) ==
  LET t == IF n.map = <<>> THEN tab ELSE Merge(tab, ToSet(n.map[1])) IN
  [k |-> n.k, id |-> n.id, type |-> n.type, ns |-> n.ns, name |-> n.name, attrs |-> ToSet(n.attrs), text |-> n.text, tab |-> Norm(t),
   md |-> [j \in 1..Len(n.md) |-> Mean(n.md[j], t)], ch |-> [j \in 1..Len(n.ch) |-> Mean(n.ch[j], t)]]
RECURSIVE Taken(_)
(* the same for a recorded node, whose map is all that is in scope *)
Taken(n) ==
  [k |-> n.k, id |-> n.id, type |-> n.type, ns |-> n.ns, name |-> n.name, attrs |-> ToSet(n.attrs), text |-> n.text, tab |-> Norm(ToSet(n.map[1])),
   md |-> [j \in 1..Len(n.md) |-> Taken(n.md[j])], ch |-> [j \in 1..Len(n.ch) |-> Taken(n.ch[j])]]
(* duplicate keys would get lost in the set *)
RECURSIVE Sound(_)
Sound(n) == /\ Cardinality({a[1] : a \in ToSet(n.attrs)}) = Len(n.attrs)
            /\ \A j \in 1..Len(n.md) : Sound(n.md[j])
            /\ \A j \in 1..Len(n.ch) : Sound(n.ch[j])

(* ------------------------------------------------------- reading XML *)
OptAt(e, loc) == LET h == SelectSeq(e.at, LAMBDA a : a.pre = "" /\ a.loc = loc) IN IF h = <<>> THEN <<>> ELSE <<h[1].v>>
RECURSIVE LoadX(_, _, _)
LoadX(k, e, tab) ==
  LET t == Merge(tab, ToSet(e.decl))
      named(tag) == SelectSeq(e.ch, LAMBDA c : c.pre = "" /\ c.loc = tag)
      mds == IF HasMd(k) THEN named("metadata") ELSE <<>>
      chs == IF k \in {"meta", "child"} THEN e.ch ELSE IF k = "item" THEN <<>> ELSE named(Below(k))
  IN [k |-> k, id |-> OptAt(e, "id"), type |-> OptAt(e, "type"),
      ns |-> LET u == UriIn(t, e.pre) IN IF u = <<"">> THEN <<>> ELSE u,
      name |-> IF k = "child" THEN e.loc ELSE "",
      attrs |-> {<<Key(t, a), a.v>> : a \in {x \in ToSet(e.at) : ~(x.pre = "" /\ x.loc \in {"id", "type"})}},
      text |-> IF k = "item" THEN e.text ELSE IF k \in {"meta", "child"} /\ ~e.blank THEN e.text ELSE <<>>,
      tab |-> Norm(t),
      md |-> [j \in 1..Len(mds) |-> LoadX("metadata", mds[j], t)],
      ch |-> [j \in 1..Len(chs) |-> LoadX(Below(k), chs[j], t)]]
ReadX(e) == LoadX("corpus", e, {})
(* nothing in the document is outside the format *)
RECURSIVE Known(_, _)
Known(k, e) == /\ (k # "child" => e.pre = "" /\ e.loc = TagOf(k))
               /\ \A j \in 1..Len(e.ch) : IF HasMd(k) /\ e.ch[j].loc = "metadata" THEN Known("metadata", e.ch[j])
                                          ELSE k # "item" /\ Known(Below(k), e.ch[j])

(* ------------------------------------------------------ reading JSON *)
RECURSIVE LoadJ(_, _, _)
LoadJ(k, o, tab) ==
  LET t == Merge(tab, ToSet(o.decl)) IN
  [k |-> IF o.bad THEN "bad" ELSE k, id |-> o.id, type |-> o.type,
   ns |-> IF o.pre # "" THEN LET u == UriIn(t, Colon(o.pre)) IN IF u = <<>> THEN <<o.pre>> ELSE u
          ELSE IF k = "child" /\ o.ns # <<>> /\ UriIn(t, o.ns[1]) # <<>> THEN UriIn(t, o.ns[1])   \* a prefix
          ELSE o.ns,
   name |-> o.name, attrs |-> {<<Key(t, a), a.v>> : a \in ToSet(o.at)}, text |-> o.text, tab |-> Norm(t),
   md |-> [j \in 1..Len(o.md) |-> LoadJ("metadata", o.md[j], t)],
   ch |-> [j \in 1..Len(o.ch) |-> LoadJ(Below(k), o.ch[j], t)]]
ReadJ(o) == LoadJ("corpus", o, {})

(* --------------------------------------------- one way of writing them *)
(* keys given as [uri, loc]: here nodes have attrs as <<[uri, loc, v]>> *)
(* attributes need a prefix of their own: the default is for elements only   *)
PreFor(tab, uri) == IF uri = "" THEN "" ELSE IF uri = XMLNS THEN "xml" ELSE (CHOOSE p \in tab : p[2] = uri /\ p[1] # "")[1]
TagPre(tab, uri) == IF <<"", uri>> \in tab THEN "" ELSE PreFor(tab, uri)
(* what can be written as XML: elements in no namespace are not in the scope *)
(* of a default one, and what is not a nested metadata element is in neither *)
RECURSIVE Writable(_, _)
Writable(n, tab) ==
  LET t == IF n.map = <<>> THEN tab ELSE Merge(tab, ToSet(n.map[1])) IN
  /\ (n.ns = <<>>) = (UriIn(t, "") \in {<<>>, <<"">>}) \/ (n.ns # <<>> /\ \E p \in t : p[2] = n.ns[1])
  /\ \A j \in 1..Len(n.at) : n.at[j].uri \in {"", XMLNS} \/ \E p \in t : p[1] # "" /\ p[2] = n.at[j].uri
  /\ \A j \in 1..Len(n.md) : Writable(n.md[j], t)
  /\ \A j \in 1..Len(n.ch) : Writable(n.ch[j], t)
DeclFor(n, tab) == IF n.map = <<>> THEN {} ELSE {p \in ToSet(n.map[1]) : p \notin tab}
RECURSIVE WriteX(_, _)
WriteX(n, tab) ==
  LET d == DeclFor(n, tab)
      t == Merge(tab, d)
      own == (IF n.id = <<>> THEN <<>> ELSE <<[pre |-> "", loc |-> "id", v |-> n.id[1]]>>)
             \o (IF n.type = <<>> THEN <<>> ELSE <<[pre |-> "", loc |-> "type", v |-> n.type[1]]>>)
  IN [pre |-> IF n.ns = <<>> THEN "" ELSE TagPre(t, n.ns[1]), loc |-> IF n.k = "child" THEN n.name ELSE TagOf(n.k),
      decl |-> SetToSeq(d),
      at |-> own \o [j \in 1..Len(n.at) |-> [pre |-> PreFor(t, n.at[j].uri), loc |-> n.at[j].loc, v |-> n.at[j].v]],
      text |-> n.text, blank |-> n.text = <<>>,
      ch |-> [j \in 1..Len(n.md) |-> WriteX(n.md[j], t)] \o [j \in 1..Len(n.ch) |-> WriteX(n.ch[j], t)]]
RECURSIVE WriteJ(_, _)
WriteJ(n, tab) ==
  LET d == DeclFor(n, tab)
      t == Merge(tab, d)
      mapped(u) == \E p \in t : p[2] = u
  IN [bad |-> FALSE, id |-> n.id, type |-> n.type, ns |-> IF n.ns # <<>> /\ n.k = "child" /\ mapped(n.ns[1]) THEN <<>> ELSE n.ns, decl |-> SetToSeq(d),
      pre |-> IF n.k = "child" /\ n.ns # <<>> /\ mapped(n.ns[1])
              THEN LET p == TagPre(t, n.ns[1]) IN IF p = "" THEN ":" ELSE p ELSE "", name |-> n.name, text |-> n.text,
      at |-> [j \in 1..Len(n.at) |-> IF n.at[j].uri = "" THEN [pre |-> "", loc |-> n.at[j].loc, v |-> n.at[j].v]
                                     ELSE IF \E p \in t : p[1] # "" /\ p[2] = n.at[j].uri THEN [pre |-> PreFor(t, n.at[j].uri), loc |-> n.at[j].loc, v |-> n.at[j].v]
                                     ELSE [pre |-> "", loc |-> "{" \o n.at[j].uri \o "}" \o n.at[j].loc, v |-> n.at[j].v]],
      md |-> [j \in 1..Len(n.md) |-> WriteJ(n.md[j], t)], ch |-> [j \in 1..Len(n.ch) |-> WriteJ(n.ch[j], t)]]
(* other ways of saying the same: names in full, or the prefix as namespace *)
RECURSIVE Restyle(_, _, _, _)
Restyle(k, o, tab, style) ==
  LET t == Merge(tab, ToSet(o.decl))
      uri(pre) == UriIn(t, Colon(pre))
      named == k = "child" /\ o.pre # "" /\ uri(o.pre) # <<>>
  IN [o EXCEPT !.pre = IF named THEN "" ELSE @,
               !.ns = IF ~named THEN @ ELSE IF style = "prefix" THEN <<Colon(o.pre)>> ELSE uri(o.pre),
               !.at = IF style = "prefix" THEN @ ELSE [j \in 1..Len(@) |-> IF @[j].pre = "" \/ uri(@[j].pre) = <<>> THEN @[j]
                        ELSE [pre |-> "", loc |-> "{" \o uri(@[j].pre)[1] \o "}" \o @[j].loc, v |-> @[j].v]],
               !.md = [j \in 1..Len(@) |-> Restyle("metadata", @[j], t, style)],
               !.ch = [j \in 1..Len(@) |-> Restyle(Below(k), @[j], t, style)]]
=============================================================================
