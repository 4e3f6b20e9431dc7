----------------------------- MODULE MC_Resolve -----------------------------
(* A chain of three tiers; every edit of a text, a reference or a tier       *)
(* reference is a transition, after which all values are compared.           *)
EXTENDS Resolve, TLC, Json
CONSTANT Depth

A == <<97>>  B == <<98>>
T(n) == CASE n = 1 -> <<116, 49>> [] n = 2 -> <<116, 50>> [] n = 3 -> <<116, 51>>
It(id, text, c, s) == [id |-> id, text |-> text, c |-> c, s |-> s]
XYZ == <<120, 121, 122>>
E1 == <<97>>                                  \* a
E2 == <<97, 91, 49, 58, 51, 93, 44, 98>>      \* a[1:3],b
E3 == <<98, 43, 97>>                          \* b+a
E4 == <<113>>                                 \* q (no such item)
Texts == {<<>>, << <<>> >>, << XYZ >>, << <<122>> >>}
Exprs == {<<>>, <<E1>>, <<E2>>, <<E3>>, <<E4>>}
TierRefs(n) == {<<>>, <<T(1)>>} \cup (IF n = 3 THEN {<<T(2)>>, << <<122, 122>> >>} ELSE {})

Start == << [id |-> T(1), c |-> <<>>, s |-> <<>>, items |-> <<It(A, <<XYZ>>, <<>>, <<>>), It(B, <<>>, <<>>, <<>>)>>],
            [id |-> T(2), c |-> <<>>, s |-> <<T(1)>>, items |-> <<It(A, <<>>, <<>>, <<E2>>), It(B, << <<122>> >>, <<>>, <<E1>>)>>],
            [id |-> T(3), c |-> <<T(2)>>, s |-> <<T(2)>>, items |-> <<It(A, <<>>, <<E1>>, <<>>), It(B, <<>>, <<>>, <<E3>>)>>] >>

VARIABLES doc, n, edit
Init == doc = Start /\ n = 0 /\ edit = [f |-> "none", ti |-> 0, ii |-> 0, v |-> <<>>]
EditOf(f, ti, ii, v) == [f |-> f, ti |-> ti, ii |-> ii, v |-> v]
Set(f, ti, ii, v) == IF ii = 0 THEN (IF f = "c" THEN [doc EXCEPT ![ti].c = v] ELSE [doc EXCEPT ![ti].s = v])
  ELSE CASE f = "text" -> [doc EXCEPT ![ti].items[ii].text = v]
         [] f = "c" -> [doc EXCEPT ![ti].items[ii].c = v]
         [] f = "s" -> [doc EXCEPT ![ti].items[ii].s = v]
Do(f, ti, ii, v) == doc' = Set(f, ti, ii, v) /\ n' = n + 1 /\ edit' = EditOf(f, ti, ii, v)
Next == /\ n < Depth
        /\ \/ \E ti \in 1..3, ii \in 1..2, v \in Texts : Do("text", ti, ii, v)
           \/ \E ti \in 2..3, ii \in 1..2, f \in {"c", "s"}, v \in Exprs : Do(f, ti, ii, v)
           \/ \E ti \in 2..3, f \in {"c", "s"} : \E v \in TierRefs(ti) : Do(f, ti, 0, v)

V(d, ti, ii) == Value(d, TRUE, ti, d[ti].items[ii])
(* what does not lie on the chain of an item does not matter to it *)
OwnTextWins == \A ti \in 1..3, ii \in 1..2 : doc[ti].items[ii].text # <<>> => V(doc, ti, ii) = TXT(doc[ti].items[ii].text[1])
Detached == \A ti \in 1..3, ii \in 1..2 :
   LET x == doc[ti].items[ii] IN
   x.text = <<>> /\ (x.c # <<>> \/ x.s # <<>>) => Value(doc, FALSE, ti, x) = ERR /\ Value(doc, TRUE, 0, x) = ERR
BareTier == \A ii \in 1..2 : LET x == doc[3].items[ii] IN
   (x.text = <<>> /\ x.c # <<>> /\ doc[3].c = <<>>) => V(doc, 3, ii) = ERR
View == <<doc, n>>
Vals(d) == [ti \in 1..3 |-> [ii \in 1..2 |-> V(d, ti, ii)]]
Emit == PrintT("@@CASE " \o ToJson([doc |-> doc, edit |-> edit', vals |-> Vals(doc')]))
=============================================================================
