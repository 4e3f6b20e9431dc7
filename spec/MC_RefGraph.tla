---------------------------- MODULE MC_RefGraph ----------------------------
(* All reference graphs over N tiers with the attributes of Atts (each       *)
(* absent, dangling, or naming any tier), and all patterns of item mentions  *)
(* over some graphs (Mode "items").                                          *)
EXTENDS RefGraph, TLC, Json
CONSTANTS N, Two, Mode

Tn == <<"ta", "tb", "tc", "td", "te">>
Iname(t, k) == <<"a1", "a2", "b1", "b2", "c1", "c2", "d1", "d2", "e1", "e2">>[2 * (t - 1) + k]
AL == "alignment"  SG == "segmentation"
Target0 == (1..N) \cup {0, -1}           \* -1 absent, 0 dangling
Ref(a, v) == IF v = -1 THEN <<>> ELSE IF v = 0 THEN << <<a, <<"zz">> >> >> ELSE << <<a, <<Tn[v]>> >> >>
IRef(a, v, ks) == IF v < 1 \/ ks = {} THEN <<>> ELSE << <<a, SetToSortSeq({Iname(v, k) : k \in ks}, LAMBDA x, y : x # y)>> >>

VARIABLES g, m, c
(* g[t] = <<target by alignment, target by segmentation>>;                   *)
(* m[t] = sets of item numbers mentioned by item 1 and item 2; c tiers are   *)
(* chosen so far                                                             *)
Chain(t) == IF t = 1 THEN <<-1, -1>> ELSE <<-1, t - 1>>
Shapes == {[t \in 1..N |-> Chain(t)],
           [t \in 1..N |-> IF t = 1 THEN <<-1, -1>> ELSE <<1, -1>>],
           [t \in 1..N |-> IF t = 1 THEN <<2, -1>> ELSE <<t - 1, -1>>],
           [t \in 1..N |-> IF t = 1 THEN <<-1, -1>> ELSE IF t = 2 THEN <<1, 3>> ELSE <<1, 2>>],
           [t \in 1..N |-> <<t, 1>>]}
Opts == Target0 \X (IF Two THEN Target0 ELSE {-1})
Init == IF Mode = "graph"
        THEN /\ g = [t \in 1..N |-> <<-1, -1>>] /\ c = 0
             /\ m = [t \in 1..N |-> << {1}, {1, 2} >>]
        ELSE /\ g \in Shapes /\ c = 1
             /\ m = [t \in 1..N |-> << {1}, {} >>]
Next == /\ c < N /\ c' = c + 1
        /\ IF Mode = "graph" THEN (\E o \in Opts : g' = [g EXCEPT ![c + 1] = o]) /\ UNCHANGED m
           ELSE (\E x, y \in SUBSET {1, 2} : m' = [m EXCEPT ![c + 1] = <<x, y>>]) /\ UNCHANGED g

Doc == TLCEval([t \in 1..N |->
  [id |-> <<Tn[t]>>, at |-> Ref(AL, g[t][1]) \o Ref(SG, g[t][2]),
   items |-> [k \in 1..2 |-> [id |-> <<Iname(t, k)>>, at |-> IRef(AL, g[t][1], m[t][k]) \o IRef(SG, g[t][2], m[t][k])]]]])
Orders == {<<AL, SG>>, <<SG, AL>>}

Terminates == c = N => \A t \in 1..N, o \in Orders :
  /\ Len(Ancestors(Doc, t, All(Doc, t), o).steps) <= N + 1
  /\ Len(Descendants(Doc, t, All(Doc, t), o, FALSE)) <= 2 * N * N
Sorted == c = N => \A o \in Orders :
  LET s == SortOrder(Doc, o)
      d == [k \in 1..Len(s) |-> Doc[s[k]]]
  IN /\ Acyclic(Doc, o) => /\ GoodOrder(Doc, o, s)
                           /\ SortOrder(d, o) = [k \in 1..N |-> k]          \* idempotent
     /\ \A i, j \in 1..Len(s) : Parent(Doc, s[i], o) = s[j] => j < i

Walks(d, t, is) == [t |-> t, is |-> is,
  anc |-> [k \in 1..2 |-> Ancestors(d, t, is, <<AL, SG>>)],
  anc2 |-> Ancestors(d, t, is, <<SG, AL>>),
  first |-> Descendants(d, t, is, <<SG, AL>>, TRUE),
  all |-> Descendants(d, t, is, <<AL, SG>>, FALSE)]
Out == LET d == Doc IN [n |-> N, g |-> g, doc |-> d,
  sort |-> [k \in 1..2 |-> LET o == IF k = 1 THEN <<AL, SG>> ELSE <<SG, AL>> IN [o |-> o, s |-> SortOrder(d, o), acyclic |-> Acyclic(d, o)]],
  walks |-> [t \in 1..N |-> Walks(d, t, All(d, t))] \o
            (IF Mode = "items" THEN [t \in 1..2 * N |-> Walks(d, (t + 1) \div 2, <<((t + 1) % 2) + 1>>)] ELSE <<>>)]
Emit == c < N \/ PrintT("@@CASE " \o ToJson(Out))
=============================================================================
