-------------------------------- MODULE Refs --------------------------------
(* The reference expression language: texts are sequences of code points.    *)
(*   expr  ::= [space] sel (delim sel)* [space]                              *)
(*   sel   ::= id | id "[" span (delim1 span)* "]"      span ::= int ":" int *)
(* Parse gives [ok, sels, trail]; a selection is [d, id, spans], where d is  *)
(* the delimiter text before it and a span is [d, x, y, a, b] with the texts *)
(* x, y of the numbers and their values a, b.                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsDigit(c) == c >= 48 /\ c <= 57
(* word characters beyond ASCII that occur in the explored texts *)
WordHi == {170, 233, 201, 1078, 26085, 66304}
IsIdChar(c) == IsLetter(c) \/ IsDigit(c) \/ c \in {45, 46, 95} \/ c \in WordHi
IsDelim(c) == ~IsIdChar(c) /\ c \notin {91, 93, 58}
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32, 160, 12288}
AllSpace(t) == \A j \in 1..Len(t) : IsSpace(t[j])

(* last position of the run of characters of class P that starts at i *)
(* (i-1: none)                                                        *)
In(c, P) == CASE P = "id" -> IsIdChar(c) [] P = "digit" -> IsDigit(c) [] P = "delim" -> IsDelim(c)
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, P) == IF i > Len(s) \/ ~In(s[i], P) THEN i - 1 ELSE RunEnd(s, i + 1, P)

RECURSIVE NumVal(_, _)
NumVal(t, acc) == IF t = <<>> THEN acc ELSE NumVal(Tail(t), 10 * acc + (Head(t) - 48))
IntVal(t) == IF t # <<>> /\ Head(t) = 45 THEN -NumVal(Tail(t), 0) ELSE NumVal(t, 0)

(* end of an integer starting at i, or 0 *)
IntEnd(s, i) == LET k == IF i <= Len(s) /\ s[i] = 45 THEN i + 1 ELSE i
                    e == RunEnd(s, k, "digit")
                IN IF e < k THEN 0 ELSE e

RECURSIVE ParseSpans(_, _, _)
ParseSpans(s, i, acc) ==
  LET i1 == IF acc = <<>> THEN i ELSE i + 1
      d == IF acc = <<>> THEN <<>> ELSE IF i <= Len(s) /\ IsDelim(s[i]) THEN <<s[i]>> ELSE <<0>>
      e1 == IntEnd(s, i1)
      c == e1 + 1
      e2 == IF e1 = 0 \/ c > Len(s) \/ s[c] # 58 THEN 0 ELSE IntEnd(s, c + 1)
  IN IF d = <<0>> \/ e2 = 0 THEN [ok |-> FALSE, spans |-> <<>>, end |-> 0]
     ELSE LET x == SubSeq(s, i1, e1)
              y == SubSeq(s, c + 1, e2)
              a == Append(acc, [d |-> d, x |-> x, y |-> y, a |-> IntVal(x), b |-> IntVal(y)])
          IN IF e2 + 1 > Len(s) THEN [ok |-> FALSE, spans |-> <<>>, end |-> 0]
             ELSE IF s[e2 + 1] = 93 THEN [ok |-> TRUE, spans |-> a, end |-> e2 + 1]
             ELSE ParseSpans(s, e2 + 1, a)

Bad == [ok |-> FALSE, sels |-> <<>>, trail |-> <<>>]
RECURSIVE ParseSels(_, _, _)
ParseSels(s, i, acc) ==
  LET j == RunEnd(s, i, "delim") IN
  IF j = Len(s) THEN [ok |-> TRUE, sels |-> acc, trail |-> SubSeq(s, i, j)]
  ELSE IF ~IsLetter(s[j + 1]) \/ (acc # <<>> /\ j < i) THEN Bad
  ELSE LET k == RunEnd(s, j + 1, "id")
           d == SubSeq(s, i, j)
           id == SubSeq(s, j + 1, k)
       IN IF k < Len(s) /\ s[k + 1] = 91
          THEN LET p == ParseSpans(s, k + 2, <<>>) IN
               IF ~p.ok THEN Bad
               ELSE ParseSels(s, p.end + 1, Append(acc, [d |-> d, id |-> id, spans |-> p.spans]))
          ELSE ParseSels(s, k + 1, Append(acc, [d |-> d, id |-> id, spans |-> <<>>]))

Parse(s) == LET p == ParseSels(s, 1, <<>>) IN
  IF p.ok /\ p.sels # <<>> /\ AllSpace(p.sels[1].d) /\ AllSpace(p.trail) THEN p
  ELSE IF p.ok /\ AllSpace(s) THEN p ELSE Bad

(* the pieces an expression denotes: [d, id, span], span <<>> or <<a, b>> *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
SelPieces(x) == IF x.spans = <<>> THEN << [d |-> x.d, id |-> x.id, span |-> <<>>] >>
  ELSE [k \in 1..Len(x.spans) |-> [d |-> IF k = 1 THEN x.d ELSE x.spans[k].d, id |-> x.id,
                                   span |-> <<x.spans[k].a, x.spans[k].b>>]]
Pieces(p) == Flat([k \in 1..Len(p.sels) |-> SelPieces(p.sels[k])])
IdsOf(p) == [k \in 1..Len(p.sels) |-> p.sels[k].id]

(* texts of an expression, of its expansion and of its compression *)
Num(x) == x.x \o <<58>> \o x.y
Brackets(xs) == <<91>> \o Flat([k \in 1..Len(xs) |-> (IF k = 1 THEN <<>> ELSE xs[k].d) \o Num(xs[k])]) \o <<93>>
SelText(x) == x.id \o (IF x.spans = <<>> THEN <<>> ELSE Brackets(x.spans))
Text(p) == Flat([k \in 1..Len(p.sels) |-> p.sels[k].d \o SelText(p.sels[k])]) \o p.trail
SpanSels(x) == IF x.spans = <<>> THEN <<x>>
  ELSE [k \in 1..Len(x.spans) |-> [d |-> IF k = 1 THEN x.d ELSE x.spans[k].d, id |-> x.id,
                                   spans |-> << [x.spans[k] EXCEPT !.d = <<>>] >>]]
ExpandP(p) == [p EXCEPT !.sels = Flat([k \in 1..Len(p.sels) |-> SpanSels(p.sels[k])])]
RECURSIVE Merge(_, _)
Merge(acc, ss) ==
  IF ss = <<>> THEN acc
  ELSE LET x == Head(ss)
           l == acc[Len(acc)]
       IN IF acc # <<>> /\ x.spans # <<>> /\ l.spans # <<>> /\ l.id = x.id /\ Len(x.d) = 1
          THEN Merge([acc EXCEPT ![Len(acc)].spans = @ \o [x.spans EXCEPT ![1].d = x.d]], Tail(ss))
          ELSE Merge(Append(acc, x), Tail(ss))
CompressP(p) == [p EXCEPT !.sels = Merge(<<>>, p.sels)]

(* selections with delimiters, and without *)
SelList(p) == Flat([k \in 1..Len(p.sels) |->
                 (IF p.sels[k].d = <<>> THEN <<>> ELSE <<p.sels[k].d>>) \o <<SelText(p.sels[k])>>])
              \o (IF p.trail = <<>> THEN <<>> ELSE <<p.trail>>)
SelListNoDelim(p) == [k \in 1..Len(p.sels) |-> SelText(p.sels[k])]

(* slices of a value as in Python: negative positions count from the end *)
Clip(v, k) == LET n == Len(v) IN IF k < 0 THEN (IF n + k < 0 THEN 0 ELSE n + k) ELSE IF k > n THEN n ELSE k
Slice(v, a, b) == SubSeq(v, Clip(v, a) + 1, Clip(v, b))

DelimText(d) == IF d = <<44>> THEN <<32>> ELSE <<>>

(* text an expression resolves to; Val(id) is [k, t] with k "text", "none",  *)
(* "err" (error inside) or "missing"                                         *)
Resolved(p, Val(_)) ==
  LET ps == Pieces(p) IN
  IF \E k \in 1..Len(ps) : Val(ps[k].id).k \in {"missing", "err"} THEN [k |-> "err", t |-> <<>>]
  ELSE [k |-> "text",
        t |-> Flat([k \in 1..Len(ps) |->
                DelimText(ps[k].d) \o
                (LET v == Val(ps[k].id).t IN IF ps[k].span = <<>> THEN v ELSE Slice(v, ps[k].span[1], ps[k].span[2]))])]

(* What the older functions make of an expression: the delimiters "," and    *)
(* "+" by themselves and the pieces, in order ([t: text] or [id, a, b]), and *)
(* its text, to which selections of ids without an item contribute nothing.  *)
Signs(d) == SelectSeq(d, LAMBDA c : c \in {43, 44})
Legacy(p) ==
  LET ps == Pieces(p) IN
  Flat([k \in 1..Len(ps) |-> [j \in 1..Len(Signs(ps[k].d)) |-> [t |-> <<Signs(ps[k].d)[j]>>, span |-> <<>>]]
                             \o <<[t |-> ps[k].id, span |-> ps[k].span]>>])
SignText(d) == [j \in 1..Len(SelectSeq(d, LAMBDA c : c = 44)) |-> 32]
LegacyText(p, Val(_)) ==
  Flat([k \in 1..Len(p.sels) |->
     LET x == p.sels[k]
         v == Val(x.id)
         t == IF v.k = "text" THEN v.t ELSE <<>>
     IN SignText(x.d) \o
        (IF v.k = "missing" THEN <<>> ELSE IF x.spans = <<>> THEN t
         ELSE Flat([j \in 1..Len(x.spans) |-> (IF j = 1 THEN <<>> ELSE SignText(x.spans[j].d)) \o Slice(t, x.spans[j].a, x.spans[j].b)]))])

(* ids mentioned in any text: maximal runs of id characters that start with  *)
(* a letter                                                                  *)
RECURSIVE Scan(_, _)
Scan(s, i) == IF i > Len(s) THEN <<>>
              ELSE IF IsLetter(s[i]) THEN LET e == RunEnd(s, i, "id") IN <<SubSeq(s, i, e)>> \o Scan(s, e + 1)
              ELSE Scan(s, i + 1)
Mentions(s) == Scan(s, 1)
=============================================================================
