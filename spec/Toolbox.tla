------------------------------ MODULE Toolbox ------------------------------
(* Import of Toolbox records (I02). A file is a sequence of records          *)
(* [id, key, bad, fields]: id, key <<>> or <<text>> (no key: header); bad:   *)
(* the reader cannot align it; fields: sequence of [m, words, segs, text]:   *)
(*   m "t": words, a sequence of texts                                       *)
(*   m "m": segs, per word a sequence of texts;  m "g", "p": segs, per       *)
(*   morpheme a sequence of texts;  m "f", "x": text; an empty field has     *)
(*   full = FALSE.                                                           *)
(* o: [phrase, note, loose]: whether a phrase tier is made, whether the      *)
(* field x is an attribute of the IGT, and the fields that are aligned       *)
(* without a reference attribute.                                            *)
(* An imported IGT is [id, at, tiers]; a tier [id, type, ra, items] with ra  *)
(* <<>> or <<[a, t]>>; an item [id, text, ref], ref <<>> or <<text>>.        *)
EXTENDS Refs

RECURSIVE CatB(_), Dec(_), JoinSp(_)
CatB(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatB(Tail(ss))
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
JoinSp(xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o <<32>> \o JoinSp(Tail(xs))
LowerC(c) == IF (c >= 65 /\ c <= 90) \/ c = 201 THEN c + 32 ELSE c
(* a word whose lower case is of another length (with U+0130) is compared as
   it is, as offsets are those of the word as written *)
LowerT(t) == IF \E j \in 1..Len(t) : t[j] = 304 THEN t ELSE [j \in 1..Len(t) |-> LowerC(t[j])]
Bounds == {45, 61, 126, 46}  \* - = ~ .
RECURSIVE StripL(_), StripR(_)
StripL(t) == IF t # <<>> /\ t[1] \in Bounds THEN StripL(Tail(t)) ELSE t
StripR(t) == IF t # <<>> /\ t[Len(t)] \in Bounds THEN StripR(SubSeq(t, 1, Len(t) - 1)) ELSE t
Bare(t) == StripR(StripL(t))

(* -------------------------------------------------- spans of morphemes *)
At(w, n, m) == n + Len(m) <= Len(w) /\ SubSeq(w, n + 1, n + Len(m)) = m   \* m stands at n in w
RECURSIVE Matched(_, _, _)
(* how far the first k morphemes match the word, a hyphen allowed before each *)
Matched(w, ms, k) ==
  IF k = 0 THEN [ok |-> TRUE, n |-> 0]
  ELSE LET p == Matched(w, ms, k - 1) IN
       IF ~p.ok THEN p
       ELSE LET n == IF p.n < Len(w) /\ w[p.n + 1] = 45 THEN p.n + 1 ELSE p.n IN
            IF At(w, n, Bare(ms[k])) THEN [ok |-> TRUE, n |-> n + Len(Bare(ms[k]))] ELSE [ok |-> FALSE, n |-> n]
Span(word, ms, s) ==
  LET w == LowerT(word)
      p == IF s = 1 THEN [ok |-> TRUE, n |-> 0] ELSE Matched(w, ms, s - 1)
  IN IF Len(ms) > 1 /\ (s = 1 \/ s < Len(ms)) /\ p.ok /\ At(w, p.n, Bare(ms[s]))
     THEN <<p.n, p.n + Len(Bare(ms[s]))>> ELSE <<p.n, Len(w)>>

(* -------------------------------------------------------------- tiers *)
Id(p, k) == p \o Dec(k)
P0 == <<112>>
W0 == <<119>>
M0 == <<109>>
G0 == <<103>>
Pos0 == <<112, 111, 115>>
T0 == <<116>>
SpanText(x) == <<91>> \o Dec(x[1]) \o <<58>> \o Dec(x[2]) \o <<93>>
(* offset of word k in the phrase *)
RECURSIVE Offset(_, _)
Offset(ws, k) == IF k = 1 THEN 0 ELSE Offset(ws, k - 1) + Len(ws[k - 1]) + 1
Tier(id, type, ra, items) == [id |-> id, type |-> type, ra |-> ra, items |-> items]
RA(a, t) == << [a |-> a, t |-> t] >>
It(id, text, ref) == [id |-> id, text |-> text, ref |-> ref]
Flat1(segs) == CatB([k \in 1..Len(segs) |-> [j \in 1..Len(segs[k]) |-> [k |-> k, j |-> j, t |-> segs[k][j]]]])
Field(r, m) == CHOOSE j \in 1..Len(r.fields) : r.fields[j].m = m
Has(r, m, j) == \E i \in 1..j - 1 : r.fields[i].m = m
Aligned(tier, type, segs, a, target) ==
  LET xs == Flat1(segs) IN Tier(tier, type, RA(a, target), [k \in 1..Len(xs) |-> It(Id(tier, k), xs[k].t, <<Id(target, xs[k].k)>>)])
Plain(tier, type, ts) == Tier(tier, type, <<>>, [k \in 1..Len(ts) |-> It(Id(tier, k), ts[k], <<>>)])
OfField(r, j, o) ==
  LET f == r.fields[j]
      words == r.fields[Field(r, "t")].words
  IN CASE f.m = "x" -> <<>>
       [] f.m # "t" /\ f.m \in o.loose /\ f.full ->
          LET id == CASE f.m = "m" -> M0 [] f.m = "g" -> G0 [] f.m = "p" -> Pos0 [] OTHER -> T0
              ty == CASE f.m = "m" -> "morphemes" [] f.m = "g" -> "glosses" [] f.m = "p" -> "pos" [] OTHER -> "translations"
          IN << Plain(id, ty, IF f.m = "f" THEN <<f.text>> ELSE CatB(f.segs)) >>
       [] f.m = "t" ->
          LET ph == Tier(P0, "phrases", <<>>, << It(Id(P0, 1), JoinSp(f.words), <<>>) >>)
              w == IF ~f.full THEN Tier(W0, "words", <<>>, <<>>)
                   ELSE IF ~o.phrase \/ "t" \in o.loose THEN Plain(W0, "words", f.words)
                   ELSE Tier(W0, "words", RA("segmentation", P0),
                          [k \in 1..Len(f.words) |-> It(Id(W0, k), f.words[k],
                             << Id(P0, 1) \o SpanText(<<Offset(f.words, k), Offset(f.words, k) + Len(f.words[k])>>) >>)])
          IN IF o.phrase THEN <<ph, w>> ELSE <<w>>
       [] f.m = "m" ->
          IF ~f.full THEN << Tier(M0, "morphemes", <<>>, <<>>) >>
          ELSE IF ~Has(r, "t", j) THEN << Plain(M0, "morphemes", CatB(f.segs)) >>
          ELSE LET xs == Flat1(f.segs) IN
               << Tier(M0, "morphemes", RA("segmentation", W0),
                   [k \in 1..Len(xs) |-> It(Id(M0, k), xs[k].t, << Id(W0, xs[k].k) \o SpanText(Span(words[xs[k].k], f.segs[xs[k].k], xs[k].j)) >>)]) >>
       [] f.m \in {"g", "p"} ->
          LET id == IF f.m = "g" THEN G0 ELSE Pos0
              ty == IF f.m = "g" THEN "glosses" ELSE "pos"
          IN IF ~f.full THEN << Tier(id, ty, <<>>, <<>>) >>
             ELSE IF Has(r, "m", j) THEN << Aligned(id, ty, f.segs, "alignment", M0) >> ELSE << Plain(id, ty, CatB(f.segs)) >>
       [] f.m = "f" ->
          IF ~f.full THEN << Tier(T0, "translations", <<>>, <<>>) >>
          ELSE IF o.phrase /\ Has(r, "t", j) THEN << Tier(T0, "translations", RA("alignment", P0), << It(Id(T0, 1), f.text, <<Id(P0, 1)>>) >>) >>
          ELSE << Plain(T0, "translations", <<f.text>>) >>
IgtKey(k) == IF IsLetter(k[1]) THEN k ELSE <<105, 103, 116>> \o k
Note == <<110, 111, 116, 101>>
CorpusId == <<99, 111, 114, 112, 117, 115, 45, 105, 100>>
Imported(r, o) == [id |-> IgtKey(r.key[1]), at |-> (IF r.id = <<>> THEN {} ELSE {<<CorpusId, r.id[1]>>})
                           \union (IF o.note THEN {<<Note, r.fields[j].text>> : j \in {j \in 1..Len(r.fields) : r.fields[j].m = "x" /\ r.fields[j].full}} ELSE {}),
                   tiers |-> CatB([j \in 1..Len(r.fields) |-> OfField(r, j, o)])]
Corpus(rs, o) == LET good == SelectSeq(rs, LAMBDA r : r.key # <<>> /\ ~r.bad) IN [k \in 1..Len(good) |-> Imported(good[k], o)]
=============================================================================
