-------------------------------- MODULE Odin --------------------------------
(* Import of ODIN text (I01). A block is [id, doc, range, types, hdr, code,  *)
(* lang, lines]: range <<start, end>>; hdr a sequence of lines; id, code and *)
(* lang <<>> or <<text>>; a line is [text, at], at a set of <<name, text>>.  *)
(* o: [keep, rep]: headers are kept; what replaces unacceptable characters.  *)
(* Texts are sequences of code points.                                       *)
EXTENDS Integers, Sequences, FiniteSets

Accepted(c) == c \in {9, 10, 13} \/ (c >= 32 /\ c <= 55295) \/ (c >= 57344 /\ c <= 65533)
RECURSIVE Clean(_, _), JoinNl(_)
Clean(t, rep) == IF t = <<>> THEN <<>> ELSE (IF Accepted(t[1]) THEN <<t[1]>> ELSE rep) \o Clean(Tail(t), rep)
JoinNl(xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o <<10>> \o JoinNl(Tail(xs))

(* languages: outer spaces go, words are capitalised *)
Space(c) == c \in {9, 10, 11, 12, 13, 32, 160}
RECURSIVE TrimL(_), TrimR(_), Title(_, _)
TrimL(t) == IF t # <<>> /\ Space(t[1]) THEN TrimL(Tail(t)) ELSE t
TrimR(t) == IF t # <<>> /\ Space(t[Len(t)]) THEN TrimR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trim(t) == TrimR(TrimL(t))
IsUp(c) == (c >= 65 /\ c <= 90) \/ c = 201
IsLow(c) == (c >= 97 /\ c <= 122) \/ c = 233
Up(c) == IF IsLow(c) THEN c - 32 ELSE c
Low(c) == IF IsUp(c) THEN c + 32 ELSE c
Title(t, mid) == IF t = <<>> THEN <<>>
  ELSE <<IF mid THEN Low(t[1]) ELSE Up(t[1])>> \o Title(Tail(t), IsUp(t[1]) \/ IsLow(t[1]))

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Und == <<117, 110, 100>>
Opt(x, d) == IF x = <<>> THEN d ELSE x[1]
Imported(b, o) ==
  [id |-> b.id, doc |-> b.doc, range |-> b.range[1] \o <<45>> \o b.range[2], types |-> b.types,
   hdr |-> IF o.keep /\ b.hdr # <<>> THEN << Clean(JoinNl(b.hdr), o.rep) >> ELSE <<>>,
   code |-> Trim(Opt(b.code, Und)), lang |-> Title(Trim(Opt(b.lang, <<>>)), FALSE),
   items |-> [k \in 1..Len(b.lines) |-> [id |-> <<114>> \o Digits(k), text |-> Clean(b.lines[k].text, o.rep), at |-> b.lines[k].at]]]
File(bs, o) == [k \in 1..Len(bs) |-> Imported(bs[k], o)]

(* ---------------------------------------------------------- directories *)
(* fs: sequence of [name, bs]: those with the suffix are imported, into a    *)
(* file of the same stem                                                     *)
EndsIn(n, suf) == Len(n) >= Len(suf) /\ SubSeq(n, Len(n) - Len(suf) + 1, Len(n)) = suf
Xml == <<46, 120, 109, 108>>
OutName(n, suf) == SubSeq(n, 1, Len(n) - Len(suf)) \o Xml
Directory(fs, suf, o) == {[name |-> OutName(fs[k].name, suf), igts |-> File(fs[k].bs, o)] : k \in {k \in 1..Len(fs) : EndsIn(fs[k].name, suf)}}
=============================================================================
