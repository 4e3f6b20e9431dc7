--------------------------- MODULE MC_Attributes ---------------------------
EXTENDS Attributes, TLC, Json
CONSTANTS N, Mode

Tables == {<<>>, << << <<"p", "u1">> >> >>, << << <<"p", "u2">>, <<"q", "u1">> >> >>}
K(u) == <<u, "k">>
AtSets == {<<>>, <<K("")>>, <<K("u1")>>, <<K("u2")>>, <<K(""), K("u1"), K("u2")>>}
Objs(n) == {[map |-> t, at |-> [j \in 1..Len(a) |-> <<a[j], "v" \o ToString(n) \o a[j][1]>>]] : t \in Tables, a \in AtSets}
Q(l, u, p, n) == [local |-> l, uri |-> u, pre |-> p, ns |-> n]
Reqs == {Q("k", "", "", <<>>), Q("k", "u1", "", <<>>), Q("k", "", "p", <<>>), Q("k", "", "q", <<>>),
         Q("k", "", "", <<"p">>), Q("k", "", "", <<"q">>), Q("k", "", "", <<"u2">>), Q("k", "", "", <<"u1">>)}

MetaSets == { <<>>, <<[type |-> <<"x">>, has |-> <<"a">>]>>, <<[type |-> <<"y">>, has |-> <<>>], [type |-> <<"x">>, has |-> <<"a", "b">>]>>,
              <<[type |-> <<"x">>, has |-> <<>>], [type |-> <<"x">>, has |-> <<"b">>]>> }
Mds == {[type |-> t, metas |-> m] : t \in {<<"xigt-meta">>, <<"other">>}, m \in MetaSets}
Levels == {<<>>} \cup {<<m>> : m \in Mds} \cup {<<m, [type |-> <<"xigt-meta">>, metas |-> <<[type |-> <<"x">>, has |-> <<"a">>]>>]>> : m \in Mds}

VARIABLES ch
Init == ch = <<>>
Next == /\ Len(ch) < N
        /\ IF Mode = "attr" THEN \E o \in Objs(Len(ch) + 1) : ch' = Append(ch, o)
           ELSE \E x \in Levels : ch' = Append(ch, x)
Full == Len(ch) = N

NoInherit == Mode = "attr" /\ Full => \A n \in 1..N, q \in Reqs : Proper(ch, n, q) =>
  Lookup(ch, n, q, FALSE) = Lookup(<<[map |-> << Table(ch, n) >>, at |-> ch[n].at]>>, 1, q, FALSE)
SameKey == Mode = "attr" /\ Full => \A n \in 1..N, q \in Reqs : Proper(ch, n, q) =>
  LET k == Key(ch, n, q) IN
  Lookup(ch, n, q, TRUE) # <<>> =>
    \E m \in 1..n : /\ Lookup(ch, n, q, TRUE) = Lookup(ch, m, [local |-> k[2], uri |-> k[1], pre |-> "", ns |-> <<>>], FALSE)
                    /\ \A j \in m + 1..n : Own(ch[j], k) = <<>>
NearestLevel == Mode = "meta" /\ Full => \A c \in SUBSET {"a", "b"} :
  LET r == GetMeta(ch, N, "x", c, TRUE) IN r # <<>> => \A j \in r[1] + 1..N : AtLevel(ch[j], "x", c) = <<>>

Ask == SetToSeq({a \in (1..N) \X Reqs \X BOOLEAN : Proper(ch, a[1], a[2])})
MAsk == SetToSeq({N - 1, N} \X {"x", "y"} \X (SUBSET {"a", "b"}) \X BOOLEAN)
Emit == ~Full \/ LET A == TLCEval(Ask) M == TLCEval(MAsk) IN PrintT("@@CASE " \o ToJson(
  [ch |-> ch, ans |-> IF Mode = "attr"
     THEN [j \in 1..Len(A) |-> [n |-> A[j][1], q |-> A[j][2], inh |-> A[j][3], v |-> Lookup(ch, A[j][1], A[j][2], A[j][3])]]
     ELSE [j \in 1..Len(M) |-> [n |-> M[j][1], key |-> M[j][2], conds |-> M[j][3], inh |-> M[j][4],
                                 r |-> GetMeta(ch, M[j][1], M[j][2], M[j][3], M[j][4])]]]))
=============================================================================
