------------------------------- MODULE Latex -------------------------------
(* The LaTeX exporter: interlinear tables (L01) and escaping (L02). Texts are*)
(* sequences of code points.                                                 *)
EXTENDS XPath, TLC

(* ------------------------------------------------------------- escaping *)
BS == 92
Textbackslash == <<92, 116, 101, 120, 116, 98, 97, 99, 107, 115, 108, 97, 115, 104>>
Textasciitilde == <<92, 116, 101, 120, 116, 97, 115, 99, 105, 105, 116, 105, 108, 100, 101>>
Textasciicircum == <<92, 116, 101, 120, 116, 97, 115, 99, 105, 105, 99, 105, 114, 99, 117, 109>>
Named == [c \in {92, 126, 94} |-> IF c = 92 THEN Textbackslash ELSE IF c = 126 THEN Textasciitilde ELSE Textasciicircum]
Slashed == {38, 37, 36, 35, 95, 123, 125}  \* & % $ # _ { }
EscapeChar(c) == IF c \in Slashed THEN <<BS, c>> ELSE IF c \in DOMAIN Named THEN Named[c] \o <<123, 125>> ELSE <<c>>
Escape(s) == Cat([j \in 1..Len(s) |-> EscapeChar(s[j])])
(* what LaTeX reads: a command is all the letters after the backslash,       *)
(* spaces after it are swallowed; {} is nothing; <<-1>> for anything else    *)
RECURSIVE LettersEnd(_, _), SpacesEnd(_, _), Read(_)
LettersEnd(s, i) == IF i <= Len(s) /\ IsLetter(s[i]) THEN LettersEnd(s, i + 1) ELSE i
SpacesEnd(s, i) == IF i <= Len(s) /\ s[i] = 32 THEN SpacesEnd(s, i + 1) ELSE i
Read(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = BS /\ Len(s) > 1 /\ s[2] \in Slashed THEN << s[2] >> \o Read(SubSeq(s, 3, Len(s)))
  ELSE IF s[1] = BS
  THEN LET e == LettersEnd(s, 2)
           n == SubSeq(s, 1, e - 1)
           cs == {c \in DOMAIN Named : Named[c] = n}
       IN IF cs = {} THEN <<-1>> ELSE << CHOOSE c \in cs : TRUE >> \o Read(SubSeq(s, SpacesEnd(s, e), Len(s)))
  ELSE IF Len(s) > 1 /\ s[1] = 123 /\ s[2] = 125 THEN Read(SubSeq(s, 3, Len(s)))
  ELSE IF s[1] \in Slashed \/ s[1] \in DOMAIN Named THEN <<-1>>
  ELSE << s[1] >> \o Read(Tail(s))

(* --------------------------------------------------------------- tables *)
(* a tier is a sequence of items [n, id, refs]: n a number, id <<>> or       *)
(* <<text>>, refs the ids it is aligned to, in the order mentioned. A column *)
(* is a sequence of cells, one per tier so far; a cell a sequence of items.  *)
RECURSIVE Groups(_, _)
Groups(t, acc) ==   \* runs of items aligned to the same
  IF t = <<>> THEN acc
  ELSE IF acc # <<>> /\ acc[Len(acc)].refs = Head(t).refs
  THEN Groups(Tail(t), [acc EXCEPT ![Len(acc)].items = Append(@, Head(t))])
  ELSE Groups(Tail(t), Append(acc, [refs |-> Head(t).refs, items |-> <<Head(t)>>]))
InColumn(col, id) == \E r \in 1..Len(col) : \E k \in 1..Len(col[r]) : col[r][k].id = <<id>>
Cols(cols, refs) == {c \in 1..Len(cols) : \E k \in 1..Len(refs) : InColumn(cols[c], refs[k])}
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
Highest(S) == CHOOSE x \in S : \A y \in S : x >= y
(* columns of a table with one tier more *)
AddTier(cols, tier) ==
  LET d == IF cols = <<>> THEN 0 ELSE Len(cols[1])
      gs == TLCEval(Groups(tier, <<>>))
      at == TLCEval([g \in 1..Len(gs) |-> Cols(cols, gs[g].refs)])
      al == {g \in 1..Len(gs) : at[g] # {}}
      joined(c) == \E g \in al : Lowest(at[g]) <= c /\ c + 1 <= Highest(at[g])   \* c and c + 1 become one
      first == {c \in 1..Len(cols) : c = 1 \/ ~joined(c - 1)}
      blk == TLCEval([c \in 1..Len(cols) |-> Highest({b \in first : b <= c})])
      blockOf(g) == blk[Lowest(at[g])]
      next(g) == {h \in al : h > g}
      prev(g) == {h \in al : h < g}
      \* unaligned items stand before the next aligned ones of their tier,
      \* within their column if the previous are in it as well
      place(g) == IF g \in al THEN [b |-> blockOf(g), own |-> FALSE]
                  ELSE IF next(g) = {} THEN [b |-> Len(cols) + 1, own |-> TRUE]
                  ELSE [b |-> blockOf(Lowest(next(g))), own |-> ~(prev(g) # {} /\ blockOf(Highest(prev(g))) = blockOf(Lowest(next(g))))]
      pl == TLCEval([g \in 1..Len(gs) |-> place(g)])
      members(b, own) == SelectSeq([g \in 1..Len(gs) |-> g], LAMBDA g : pl[g].b = b /\ pl[g].own = own)
      news(b) == LET ms == members(b, TRUE) IN [k \in 1..Len(ms) |-> Append([r \in 1..d |-> <<>>], gs[ms[k]].items)]
      merged(b) == LET cs == {c \in 1..Len(cols) : blk[c] = b}
                       ms == members(b, FALSE)
                   IN Append([r \in 1..d |-> Cat([k \in 1..Cardinality(cs) |-> cols[b + k - 1][r]])], Cat([k \in 1..Len(ms) |-> gs[ms[k]].items]))
  IN TLCEval(Cat([c \in 1..Len(cols) |-> IF c \in first THEN Append(news(c), merged(c)) ELSE <<>>]) \o news(Len(cols) + 1))
(* alignments are monotone: the next aligned items do not start before       *)
Monotone(cols, tier) ==
  LET gs == Groups(tier, <<>>)
      at == [g \in 1..Len(gs) |-> Cols(cols, gs[g].refs)]
  IN \A g, h \in 1..Len(gs) : g < h /\ at[g] # {} /\ at[h] # {} => Lowest(at[g]) <= Lowest(at[h])
RECURSIVE AllMonotone(_, _)
Start(t) == [k \in 1..Len(t) |-> << <<t[k]>> >>]
(* with no column yet, runs of items aligned to the same make the columns    *)
RECURSIVE Build(_, _, _)
Build(cols, ts, d) ==
  IF ts = <<>> THEN cols
  ELSE LET c == IF cols # <<>> THEN AddTier(cols, Head(ts))
                ELSE LET gs == Groups(Head(ts), <<>>) IN [k \in 1..Len(gs) |-> Append([r \in 1..d |-> <<>>], gs[k].items)]
       IN Build(c, Tail(ts), d + 1)
Table(ts) == Build(Start(Head(ts)), Tail(ts), 1)
AllMonotone(cols, ts) ==
  IF ts = <<>> THEN TRUE
  ELSE Monotone(cols, Head(ts)) /\ AllMonotone(Build(cols, <<Head(ts)>>, IF cols = <<>> THEN 0 ELSE Len(cols[1])), Tail(ts))

(* ------------------------------------------------------------- the text *)
Lower(t) == [j \in 1..Len(t) |-> IF t[j] >= 65 /\ t[j] <= 90 THEN t[j] + 32 ELSE t[j]]
Exported(doc, g, types) == SelectSeq(doc[g].ch, LAMBDA t : doc[t].type # <<>> /\ Lower(doc[t].type[1]) \in ToSet(types))
Align(doc, i) == LET a == Ref(doc, i, "alignment") s == Ref(doc, i, "segmentation") IN
  Mentions(IF a # <<>> /\ a[1] # <<>> THEN a[1] ELSE IF s # <<>> THEN s[1] ELSE <<>>)
Tiers(doc, g, types) == LET e == Exported(doc, g, types) IN
  [t \in 1..Len(e) |-> [k \in 1..Len(doc[e[t]].ch) |-> LET i == doc[e[t]].ch[k] IN [n |-> i, id |-> doc[i].id, refs |-> Align(doc, i)]]]
(* substitutions: sequence of [pre, ps], for tiers whose type starts with    *)
(* pre; ps a sequence of [f, t], each f replaced by t from left to right     *)
StartsWith(s, f, i) == i + Len(f) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(f) - 1) = f
RECURSIVE Replace(_, _, _, _), Replacing(_, _), Sub(_, _, _)
Replace(s, f, t, i) == IF i > Len(s) THEN <<>>
  ELSE IF StartsWith(s, f, i) THEN t \o Replace(s, f, t, i + Len(f)) ELSE << s[i] >> \o Replace(s, f, t, i + 1)
Replacing(s, ps) == IF ps = <<>> THEN s ELSE Replacing(Replace(s, Head(ps).f, Head(ps).t, 1), Tail(ps))
Sub(s, type, subs) == IF subs = <<>> THEN s
  ELSE Sub(IF StartsWith(type, Head(subs).pre, 1) THEN Replacing(s, Head(subs).ps) ELSE s, type, Tail(subs))
Content(doc, i) == LET v == ItemValue(doc, i).v IN IF v = <<>> \/ v = << <<>> >> THEN <<123, 125>> ELSE v[1]
RECURSIVE Joined(_, _)
Joined(xs, sep) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o Joined(Tail(xs), sep)
Cell(doc, c, type, o) == <<123>> \o Joined([k \in 1..Len(c) |-> Sub(Escape(Content(doc, c[k].n)), type, o.items)], <<32>>) \o <<125>>
BeginExe == <<92, 98, 101, 103, 105, 110, 123, 101, 120, 101, 125, 92, 115, 109, 97, 108, 108>>
EndExe == <<92, 101, 110, 100, 123, 101, 120, 101, 125>>
ExG == <<92, 101, 120, 92, 103>>
Trans == <<92, 116, 114, 97, 110, 115, 32>>
Translations == <<116, 114, 97, 110, 115, 108, 97, 116, 105, 111, 110, 115>>
Cannot == <<37, 10, 37, 32, 99, 97, 110, 110, 111, 116, 32, 101, 120, 112, 111, 114, 116, 32, 73, 71, 84, 32>>
NoneT == <<78, 111, 110, 101>>
Lines(doc, g, o) ==
  LET e == Exported(doc, g, o.types)
      tab == TLCEval(Table(Tiers(doc, g, o.types)))
      type(t) == doc[e[t]].type[1]
      row(t) == Sub(Joined([c \in 1..Len(tab) |-> Cell(doc, tab[c][t], type(t), o)], <<32>>) \o <<BS, BS>>, type(t), o.tiers)
      tr == SelectSeq(doc[g].ch, LAMBDA t : doc[t].type = <<Translations>> /\ doc[t].ch # <<>>)
  IN << BeginExe, ExG \o [t \in 1..Len(e) |-> 108] >> \o [t \in 1..Len(e) |-> row(t)]
     \o [k \in 1..Len(tr) |-> Trans \o Sub(Escape(Content(doc, doc[tr[k]].ch[1])), Translations, o.tiers)] \o << EndExe >>
IgtText(doc, g, o) ==
  IF Len(Exported(doc, g, o.types)) < 2
  THEN Cannot \o (IF doc[g].id = <<>> THEN NoneT ELSE doc[g].id[1]) \o <<10, 37>>
  ELSE Joined(Lines(doc, g, o), <<10>>)
IgtDefined(doc, g, o) ==
  LET ts == Tiers(doc, g, o.types)
      e == Exported(doc, g, o.types)
      is == Cat([t \in 1..Len(e) |-> doc[e[t]].ch])
  IN /\ Len(ts) >= 2 => AllMonotone(Start(ts[1]), Tail(ts))
     /\ \A j, k \in 1..Len(is) : j < k /\ doc[is[j]].id # <<>> => doc[is[j]].id # doc[is[k]].id
     /\ \A k \in 1..Len(is) : ItemValue(doc, is[k]) # U
     /\ \A t \in ToSet(doc[g].ch) : doc[t].type = <<Translations>> /\ doc[t].ch # <<>> => ItemValue(doc, doc[t].ch[1]) # U
FileText(doc, o, head, foot) ==
  head \o <<10>> \o Cat([k \in 1..Len(doc[1].ch) |-> IgtText(doc, doc[1].ch[k], o) \o <<10, 10>>]) \o foot \o <<10>>
=============================================================================
