---------------------------- MODULE MC_Equality ----------------------------
(* A document with every kind of object, and all documents that differ from  *)
(* it in exactly one place; all pairs of them must be equal iff identical.   *)
EXTENDS Equality, TLC, Json

N(k, id, text, name, md, ch) ==
  [k |-> k, id |-> id, type |-> <<>>, ns |-> <<>>, name |-> name, attrs |-> << <<"v", "1">> >>,
   text |-> text, md |-> md, ch |-> ch, map |-> <<>>]

Child(c)  == N("child", <<>>, <<"x">>, "n", <<>>, c)
MetaN     == N("meta", <<>>, <<"x">>, "", <<>>, <<Child(<<Child(<<>>)>>)>>)
Md        == N("metadata", <<"m">>, <<>>, "", <<>>, <<MetaN>>)
ItemN     == N("item", <<"a">>, <<"x">>, "", <<>>, <<>>)
TierN     == N("tier", <<"a">>, <<>>, "", <<Md>>, <<ItemN, [ItemN EXCEPT !.id = <<"b">>]>>)
IgtN      == N("igt", <<"a">>, <<>>, "", <<Md>>, <<TierN>>)
CorpusN   == N("corpus", <<"a">>, <<>>, "", <<Md>>, <<IgtN>>)

HasText(n) == n.k \in {"item", "meta", "child"}
HasMd(n) == n.k \in {"corpus", "igt", "tier"}

(* changes of the node itself *)
Here(n) ==
     {[n EXCEPT !.id = v] : v \in {<<>>, <<"zz">>}}
  \cup {[n EXCEPT !.type = v] : v \in {<<"t">>, <<"">>}}
  \cup {[n EXCEPT !.ns = v] : v \in {<<"urn:p">>}}
  \cup {[n EXCEPT !.attrs = v] : v \in {<<>>, << <<"v", "2">> >>, << <<"w", "1">> >>, << <<"v", "1">>, <<"w", "">> >>}}
  \cup (IF HasText(n) THEN {[n EXCEPT !.text = v] : v \in {<<>>, <<"">>, <<"y">>, <<"x ">>}} ELSE {})
  \cup (IF n.k = "child" THEN {[n EXCEPT !.name = "o"]} ELSE {})
  \cup (IF n.ch # <<>> THEN {[n EXCEPT !.ch = Tail(n.ch)], [n EXCEPT !.ch = Front(n.ch)], [n EXCEPT !.ch = Reverse(n.ch)]} ELSE {})
  \cup (IF n.k \in {"tier"} THEN {[n EXCEPT !.ch = Append(n.ch, [ItemN EXCEPT !.id = <<>>])]} ELSE {})
  \cup (IF n.k \in {"meta", "child"} THEN {[n EXCEPT !.ch = Append(n.ch, Child(<<>>))]} ELSE {})
  \cup (IF HasMd(n) /\ n.md # <<>> THEN {[n EXCEPT !.md = <<>>], [n EXCEPT !.md = Append(n.md, [Md EXCEPT !.id = <<>>])]} ELSE {})

RECURSIVE Mutants(_)
Mutants(n) == Here(n)
  \cup UNION {{[n EXCEPT !.md[j] = m] : m \in Mutants(n.md[j])} : j \in 1..Len(n.md)}
  \cup UNION {{[n EXCEPT !.ch[j] = m] : m \in Mutants(n.ch[j])} : j \in 1..Len(n.ch)}

Bases == {CorpusN, IgtN, TierN, ItemN, Md, MetaN, Child(<<Child(<<>>)>>)}
Small == {ItemN, MetaN, Child(<<>>)}
(* kinds that look alike *)
Bare(k) == [N(k, <<>>, <<>>, IF k = "child" THEN "n" ELSE "", <<>>, <<>>) EXCEPT !.attrs = <<>>]
Alikes == {Bare(k) : k \in {"corpus", "igt", "tier", "item", "metadata", "meta", "child"}}
          \cup {[Bare(k) EXCEPT !.text = <<"x">>] : k \in {"item", "meta", "child"}}
          \cup {[Bare("child") EXCEPT !.name = ""] : k \in {}}

VARIABLES a, b
Init == \/ \E n \in Bases : a = n /\ b \in Mutants(n) \cup {n}
        \/ \E n \in Small : a \in Mutants(n) /\ b \in Mutants(n)
        \/ a \in Alikes /\ b \in Alikes
        \/ \E n \in Bases : a \in Bases \ {n} /\ b = n
Next == FALSE /\ UNCHANGED <<a, b>>

Reflexive == Equal(a, a) /\ Equal(b, b)
Symmetric == Equal(a, b) = Equal(b, a)
ExactlyIdentical == Equal(a, b) = (a = b)
Emit == PrintT("@@CASE " \o ToJson([a |-> a, b |-> b, eq |-> Equal(a, b)]))
=============================================================================
