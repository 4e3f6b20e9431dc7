---------------------------- MODULE MC_IgtIndex ----------------------------
EXTENDS IgtIndex, TLC, Json
CONSTANTS Depth, MaxItems
Names == {"t", "u", "a", "b"}
Atts == {"alignment", "content"}

VARIABLES doc, n, edit
I(id, at) == [id |-> id, at |-> at]
Ti(id, at, is) == [id |-> id, at |-> at, items |-> is]
Start == << Ti(<<"t">>, <<>>, <<I(<<"a">>, <<>>), I(<<"b">>, <<>>)>>),
            Ti(<<"u">>, << <<"alignment", <<"t">> >> >>, <<I(<<"c">>, << <<"alignment", <<"b", "a", "b">> >> >>)>>) >>
No == [op |-> "none", ti |-> 1, ii |-> 0, tj |-> 0, a |-> "", v |-> <<>>, id |-> <<>>, x |-> Ti(<<>>, <<>>, <<>>), y |-> I(<<>>, <<>>)]
Init == doc = Start /\ n = 0 /\ edit = No

NewItems == {I(<<"a">>, << <<"alignment", <<"c">> >> >>), I(<<>>, << <<"alignment", <<"a">> >> >>), I(<<"t">>, << <<"content", <<"a">> >> >>)}
NewTiers == {Ti(<<"v">>, << <<"alignment", <<"u">> >> >>, <<I(<<"a">>, << <<"content", <<"b">> >> >>)>>),
             Ti(<<>>, << <<"content", <<"t">> >> >>, <<I(<<"d">>, << <<"alignment", <<"a">> >> >>)>>)}
Vals == {<<>>, <<"a">>, <<"t">>, <<"b", "a">>, <<"zz">>}
Edits ==
  {[No EXCEPT !.op = "addtier", !.ti = k, !.x = x] : k \in 1..Len(doc) + 1, x \in NewTiers}
  \cup {[No EXCEPT !.op = "deltier", !.ti = k] : k \in 1..Len(doc)}
  \cup {[No EXCEPT !.op = "settier", !.ti = k, !.x = x] : k \in 1..Len(doc), x \in NewTiers}
  \cup {[No EXCEPT !.op = "clear", !.ti = k] : k \in 1..Len(doc)}
  \cup {[No EXCEPT !.op = "reverse"]}
  \cup {[No EXCEPT !.op = "attr", !.ti = k, !.a = a, !.v = v] : k \in 1..Len(doc), a \in Atts, v \in {<<"u">>, <<"t">>, <<"a">>}}
  \cup {[No EXCEPT !.op = "unattr", !.ti = k, !.a = a] : k \in 1..Len(doc), a \in Atts}
  \cup {[No EXCEPT !.op = "rename", !.ti = k, !.id = i] : k \in 1..Len(doc), i \in {<<>>, <<"a">>, <<"w">>}}
  \cup UNION {
     {[No EXCEPT !.op = "additem", !.ti = k, !.ii = j, !.y = y] : j \in {1, Len(doc[k].items) + 1}, y \in NewItems}
     \cup {[No EXCEPT !.op = "delitem", !.ti = k, !.ii = j] : j \in 1..Len(doc[k].items)}
     \cup {[No EXCEPT !.op = "setitem", !.ti = k, !.ii = j, !.y = y] : j \in 1..Len(doc[k].items), y \in NewItems}
     \cup {[No EXCEPT !.op = "move", !.ti = k, !.ii = j, !.tj = m] : j \in 1..Len(doc[k].items), m \in 1..Len(doc)}
     \cup {[No EXCEPT !.op = "rename", !.ti = k, !.ii = j, !.id = i] : j \in 1..Len(doc[k].items), i \in {<<>>, <<"t">>, <<"a">>}}
     \cup {[No EXCEPT !.op = "attr", !.ti = k, !.ii = j, !.a = "alignment", !.v = v] : j \in 1..Len(doc[k].items), v \in Vals}
     \cup {[No EXCEPT !.op = "unattr", !.ti = k, !.ii = j, !.a = "alignment"] : j \in 1..Len(doc[k].items)}
     : k \in 1..Len(doc)}
Small(d) == Len(d) <= 3 /\ \A k \in 1..Len(d) : Len(d[k].items) <= MaxItems
Next == /\ n < Depth
        /\ \E e \in Edits : /\ e.op = "move" => e.ti # e.tj
                            /\ UniqueIds(Edit(doc, e)) /\ Small(Edit(doc, e))
                            /\ doc' = Edit(doc, e) /\ edit' = e /\ n' = n + 1
View == <<doc, n>>

Ids == Names \cup {"c", "d", "v", "w", "zz"}
AllAtts == {"alignment", "content", "segmentation"}
(* b refers to a iff a is referred to by b, between objects reachable by id *)
InverseRelation == \A i, j \in Ids, a \in AllAtts :
  LET p == GetAny(doc, i) q == GetAny(doc, j) IN
  (p # <<>> /\ q # <<>> /\ (p[2] = 0) = (q[2] = 0) /\ (ItemIdsUnique(doc))
     /\ (p[2] = 0 \/ GetTier(doc, i) = <<>>)) =>
    ((j \in ToSet(Referents(doc, i, a))) <=> (i \in ToSet(Referrers(doc, j, a))))
Sound == \A i \in Ids : /\ GetItem(doc, i) # <<>> => Obj(doc, GetItem(doc, i)).id = <<i>>
                        /\ \A p \in ToSet(Items(doc)) : Obj(doc, p).id = <<i>> => GetItem(doc, i) # <<>>
OnceEach == \A i \in Ids, a \in AllAtts : Known(doc, i) => LET r == Referrers(doc, i, a) IN Cardinality(ToSet(r)) = Len(r)

Answers(d) == [i \in Ids |->
  [item |-> GetItem(d, i), any |-> GetAny(d, i), known |-> Known(d, i),
   ents |-> IF Known(d, i) THEN [a \in AllAtts |-> Referents(d, i, a)] ELSE [a \in AllAtts |-> <<>>],
   ers |-> IF Known(d, i) THEN [a \in AllAtts |-> Referrers(d, i, a)] ELSE [a \in AllAtts |-> <<>>]]]
Emit == PrintT("@@CASE " \o ToJson([doc |-> doc, edit |-> edit', doc2 |-> doc', ans |-> Answers(doc'), u |-> ItemIdsUnique(doc')]))
=============================================================================
