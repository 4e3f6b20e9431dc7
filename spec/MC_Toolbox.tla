---------------------------- MODULE MC_Toolbox ----------------------------
(* Mode "spans": one word cut into morphemes in all ways; "shape": records   *)
(* of two words with all small numbers of morphemes and glosses, fields in   *)
(* all orders and omissions                                                  *)
EXTENDS Toolbox, TLC, Json
CONSTANTS Mode, MaxM
VARIABLES c, out

UpTo(S, a, n) == UNION {[1..k -> S] : k \in a..n}
Ws == {<<97>>, <<97, 98>>, <<97, 45, 98>>, <<97, 45, 98, 45, 97>>, <<45, 97, 98>>, <<65, 98, 97>>, <<97, 97, 97>>, <<98, 233, 97>>}
Ms == {<<97>>, <<45, 98>>, <<98>>, <<97, 98, 61>>, <<45>>, <<120>>, <<65>>}
F(m, full, words, segs, text) == [m |-> m, full |-> full, words |-> words, segs |-> segs, text |-> text]
Rec(fs) == [id |-> <<>>, key |-> << <<107>> >>, bad |-> FALSE, fields |-> fs]
o1 == [phrase |-> TRUE, note |-> FALSE, loose |-> {}]
a == <<97>>
b == <<98, 98>>
(* gloss counts per morpheme *)
TF == F("t", TRUE, <<b, a>>, <<>>, <<>>)
Mf(n1, n2) == F("m", TRUE, <<>>, << [k \in 1..n1 |-> <<98>>], [k \in 1..n2 |-> a] >>, <<>>)
Gf(m, cs) == F(m, TRUE, <<>>, [k \in 1..Len(cs) |-> [j \in 1..cs[k] |-> <<48 + k, 48 + j>>]], <<>>)
Tr == F("f", TRUE, <<>>, <<>>, <<72, 105, 32, 97>>)
No(m) == F(m, FALSE, <<>>, <<>>, <<>>)
Init ==
  \/ /\ Mode = "spans" /\ c \in {[r |-> Rec(<<F("t", TRUE, <<w>>, <<>>, <<>>), F("m", TRUE, <<>>, <<ms>>, <<>>)>>), o |-> o1] : w \in Ws, ms \in UpTo(Ms, 1, MaxM)}
     /\ out = Imported(c.r, c.o)
  \/ /\ Mode = "shape"
     /\ \E n1 \in 0..2, n2 \in 0..2 : \E gs \in [1..n1 + n2 -> 0..2] : \E ps \in [1..n1 + n2 -> {0, 1}] : \E v \in (IF (\A k \in 1..n1 + n2 : ps[k] = 1) THEN (IF \A k \in 1..n1 + n2 : gs[k] = 1 THEN 1..9 ELSE {1, 2, 3, 4, 9}) ELSE {1, 2}), ph \in BOOLEAN : \E lo \in (IF v = 1 /\ (\A k \in 1..n1 + n2 : ps[k] = 1) THEN {{}, {"t"}, {"m"}, {"g"}, {"p", "f"}, {"t", "m", "g", "p", "f"}} ELSE {{}}) :
          /\ n1 + n2 > 0 /\ (\E k \in 1..n1 + n2 : gs[k] > 0) /\ (\E k \in 1..n1 + n2 : ps[k] > 0)
          /\ c = [r |-> Rec(CASE v = 1 -> <<TF, Mf(n1, n2), Gf("g", gs), Gf("p", ps), Tr>>
                           [] v = 2 -> <<Tr, TF, Mf(n1, n2), Gf("p", ps), Gf("g", gs)>>
                           [] v = 3 -> <<TF, Tr, Mf(n1, n2), F("x", TRUE, <<>>, <<>>, a), Gf("g", gs)>>
                           [] v = 4 -> <<Mf(n1, n2), Gf("g", gs), Tr>>
                           [] v = 5 -> <<TF, No("m"), No("g"), Tr>>
                           [] v = 6 -> <<No("t"), No("m"), Tr>>
                           [] v = 7 -> <<TF, No("f")>>
                           [] v = 8 -> <<F("x", TRUE, <<>>, <<>>, a)>>
                           [] v = 9 -> <<Gf("g", gs), TF, Mf(n1, n2)>>), o |-> [phrase |-> ph, note |-> ph, loose |-> lo]]
     /\ out = Imported(c.r, c.o)
Next == UNCHANGED <<c, out>>

ItemTexts(t) == [k \in 1..Len(t.items) |-> t.items[k].text]
TierOf(id) == {k \in 1..Len(out.tiers) : out.tiers[k].id = id}
Words == c.r.fields[Field(c.r, "t")].words
(* ids are unique, tokens are all there in order *)
Unique == \A i, j \in 1..Len(out.tiers) : /\ i # j => out.tiers[i].id # out.tiers[j].id
                                          /\ \A p \in 1..Len(out.tiers[i].items), q \in 1..Len(out.tiers[j].items) : <<i, p>> # <<j, q>> => out.tiers[i].items[p].id # out.tiers[j].items[q].id
Kept == \A f \in 1..Len(c.r.fields) : LET x == c.r.fields[f] IN
  /\ x.m = "t" /\ x.full => \E k \in TierOf(W0) : ItemTexts(out.tiers[k]) = x.words
  /\ x.m \in {"m", "g", "p"} /\ x.full => \E k \in TierOf(CASE x.m = "m" -> M0 [] x.m = "g" -> G0 [] OTHER -> Pos0) : ItemTexts(out.tiers[k]) = CatB(x.segs)
(* spans lie in the word, start where the last ended, and words are cut from the phrase *)
Spanned == Mode = "spans" => LET w == Words[1] ms == c.r.fields[2].segs[1] IN
  \A s \in 1..Len(ms) : LET x == Span(w, ms, s) IN
    /\ 0 <= x[1] /\ x[1] <= x[2] /\ x[2] <= Len(w)
    /\ (s = 1 => x[1] = 0) /\ (s = Len(ms) => x[2] = Len(w) \/ s = 1)
    /\ s > 1 => LET y == Span(w, ms, s - 1) IN
         y[1] <= x[1] /\ (Matched(LowerT(w), ms, s - 1).ok /\ 45 \notin {w[k] : k \in 1..Len(w)} => x[1] = y[2])
(* words cut as their spelling are recovered exactly *)
Exact == Mode = "spans" => LET w == Words[1] ms == c.r.fields[2].segs[1] IN
  (CatB([k \in 1..Len(ms) |-> Bare(ms[k])]) = w /\ LowerT(w) = w /\ 45 \notin {w[k] : k \in 1..Len(w)}) =>
     \A s \in 1..Len(ms) : LET x == Span(w, ms, s) IN SubSeq(w, x[1] + 1, x[2]) = Bare(ms[s])
Emit == PrintT("@@CASE " \o ToJson([c |-> c, out |-> out]))
=============================================================================
