------------------------------ MODULE MC_Codec ------------------------------
(* Corpora that differ from a plain one by up to N features; both notations  *)
(* lose nothing, and the corpora are emitted to be taken through the code.   *)
EXTENDS Codec, TLC, Json
CONSTANT N

M(k) == [k |-> k, id |-> <<>>, type |-> <<>>, ns |-> <<>>, name |-> "", at |-> <<>>, text |-> <<>>, md |-> <<>>, ch |-> <<>>, map |-> <<>>]
Named(nm) == [M("child") EXCEPT !.name = nm]
A(u, l, v) == [uri |-> u, loc |-> l, v |-> v]
U1 == "urn:p"
U2 == "urn:q"
Base == [M("corpus") EXCEPT !.map = << << <<"p", U1>> >> >>,
   !.md = << [M("metadata") EXCEPT !.ch = << [M("meta") EXCEPT !.text = <<"t">>], [M("meta") EXCEPT !.ch = <<Named("n"), Named("o")>>] >>] >>,
   !.ch = << [M("igt") EXCEPT !.id = <<"i1">>, !.md = <<M("metadata")>>,
                !.ch = << [M("tier") EXCEPT !.id = <<"w">>, !.ch = << [M("item") EXCEPT !.id = <<"w1">>, !.text = <<"x">>], M("item") >>], M("tier") >>],
             M("igt") >>]

(* the places of Base that features apply to: ways down from the root *)
Places == << <<>>, <<"md", 1>>, <<"md", 1, "ch", 1>>, <<"md", 1, "ch", 2>>, <<"md", 1, "ch", 2, "ch", 1>>, <<"md", 1, "ch", 2, "ch", 2>>,
             <<"ch", 1>>, <<"ch", 2>>, <<"ch", 1, "md", 1>>, <<"ch", 1, "ch", 1>>, <<"ch", 1, "ch", 2>>, <<"ch", 1, "ch", 1, "ch", 1>>, <<"ch", 1, "ch", 1, "ch", 2>> >>
RECURSIVE Put(_, _, _, _)
Put(n, w, f, z) ==
  IF w # <<>>
  THEN IF w[1] = "md" THEN [n EXCEPT !.md[w[2]] = Put(@, SubSeq(w, 3, Len(w)), f, z)] ELSE [n EXCEPT !.ch[w[2]] = Put(@, SubSeq(w, 3, Len(w)), f, z)]
  ELSE CASE f = "id" -> [n EXCEPT !.id = <<"z" \o z>>]
         [] f = "type" -> [n EXCEPT !.type = <<"ty">>]
         [] f = "attr" -> [n EXCEPT !.at = @ \o <<A("", "k", "v1"), A("", "aa", "")>>]
         [] f = "nsattr" -> [n EXCEPT !.at = @ \o <<A(U1, "k", "v2"), A(U1, "id", "v4"), A(U1, "type", "v5")>>]
         [] f = "xml" -> [n EXCEPT !.at = @ \o <<A(XMLNS, "lang", "en"), A(XMLNS, "id", "x9")>>]
         [] f = "map" -> [n EXCEPT !.map = << << <<"p", U1>>, <<"q", U2>> >> >>, !.at = @ \o <<A(U2, "m", "v3")>>]
         [] f = "remap" -> [n EXCEPT !.map = << << <<"p", U2>>, <<"r", U1>> >> >>]
         [] f = "text" -> [n EXCEPT !.text = <<" a b ">>]
         [] f = "ns" -> [n EXCEPT !.ns = <<U1>>]
         [] f = "default" -> [n EXCEPT !.map = << << <<"p", U1>>, <<"", U2>> >> >>, !.ns = <<U2>>]
         [] f = "undefault" -> [n EXCEPT !.map = << << <<"p", U1>>, <<"", "">> >> >>, !.ns = <<>>]
         [] f = "name" -> [n EXCEPT !.name = "igt"]
         [] f = "kid" -> [n EXCEPT !.ch = Append(@, IF n.k \in {"meta", "child"} THEN [Named("metadata") EXCEPT !.text = <<"u">>, !.ns = n.ns] ELSE [M(Below(n.k)) EXCEPT !.type = <<"t2">>])]
         [] f = "nomd" -> [n EXCEPT !.md = <<>>]
         [] f = "md" -> [n EXCEPT !.md = Append(@, [M("metadata") EXCEPT !.id = <<"m2">>])]
Kind(w) == IF w = <<>> THEN "corpus" ELSE IF Len(w) = 2 THEN (IF w[1] = "md" THEN "metadata" ELSE "igt")
           ELSE IF w[1] = "md" THEN (IF Len(w) = 4 THEN "meta" ELSE "child") ELSE IF w[3] = "md" THEN "metadata" ELSE IF Len(w) = 4 THEN "tier" ELSE "item"
Fs(k) == {"id", "type", "attr", "nsattr", "xml", "map", "remap"} \cup (IF k \in {"item", "meta", "child"} THEN {"text"} ELSE {})
         \cup (IF k = "child" THEN {"ns", "name", "default", "undefault"} ELSE {}) \cup (IF k # "item" THEN {"kid"} ELSE {}) \cup (IF k \in {"igt", "tier"} THEN {"md"} ELSE {})
Features == UNION {{<<j, f>> : f \in Fs(Kind(Places[j]))} : j \in 1..Len(Places)}

VARIABLES doc, used
Init == doc = Base /\ used = {}
Next == /\ Cardinality(used) < N
        /\ \E x \in Features \ used : used' = used \cup {x} /\ doc' = Put(doc, Places[x[1]], x[2], ToString(x[1]))
View == doc

(* a corpus in this module has attributes by parts; its keys in full *)
RECURSIVE Full(_)
Full(n) == [k |-> n.k, id |-> n.id, type |-> n.type, ns |-> n.ns, name |-> n.name, text |-> n.text, map |-> n.map,
            attrs |-> [j \in 1..Len(n.at) |-> <<IF n.at[j].uri = "" THEN n.at[j].loc ELSE "{" \o n.at[j].uri \o "}" \o n.at[j].loc, n.at[j].v>>],
            md |-> [j \in 1..Len(n.md) |-> Full(n.md[j])], ch |-> [j \in 1..Len(n.ch) |-> Full(n.ch[j])]]
RECURSIVE Extends(_, _)
Extends(n, tab) == /\ n.map # <<>> => \A p \in tab : \E q \in ToSet(n.map[1]) : p[1] = q[1]
                   /\ LET t == IF n.map = <<>> THEN tab ELSE Merge(tab, ToSet(n.map[1])) IN
                      /\ \A j \in 1..Len(n.md) : Extends(n.md[j], t)
                      /\ \A j \in 1..Len(n.ch) : Extends(n.ch[j], t)
XmlLossless == Writable(doc, {}) => ReadX(WriteX(doc, {})) = Mean(Full(doc), {})
JsonLossless == Writable(doc, {}) => ReadJ(WriteJ(doc, {})) = Mean(Full(doc), {})
StylesAgree == Writable(doc, {}) => \A st \in {"full", "prefix"} : ReadJ(Restyle("corpus", WriteJ(doc, {}), {}, st)) = Mean(Full(doc), {})
(* each part, taken out of the corpus with the prefixes in scope there as    *)
(* its own table, is written completely on its own                           *)
RECURSIVE Parts(_, _)
Parts(n, tab) == LET t == IF n.map = <<>> THEN tab ELSE Merge(tab, ToSet(n.map[1])) IN
  {[n EXCEPT !.map = <<SetToSeq(t)>>]} \cup UNION {Parts(n.md[j], t) : j \in 1..Len(n.md)} \cup UNION {Parts(n.ch[j], t) : j \in 1..Len(n.ch)}
Contexts == {{}, {<<"p", U1>>}, {<<"p", U2>>, <<"s", U1>>}}
PartsLossless == Writable(doc, {}) => \A n \in Parts(doc, {}) : /\ LoadX(n.k, WriteX(n, {}), {}) = Mean(Full(n), {})
                                           /\ \A c \in Contexts : LoadJ(n.k, WriteJ(n, c), c) = Mean(Full(n), c)
Emit == Writable(doc, {}) => PrintT("@@CASE " \o ToJson([d |-> Full(doc), e |-> WriteX(doc, {}), ext |-> Extends(doc, {})]))
=============================================================================
