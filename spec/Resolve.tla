------------------------------ MODULE Resolve ------------------------------
(* Values of items (E03). A document is a sequence of tiers                  *)
(*   [id, c, s, items]   c, s: <<>> or <<id>> (content / segmentation tier)  *)
(*   item: [id, text, c, s]  text: <<>> or <<t>>; c, s: <<>> or <<expr>>     *)
(* ids and texts are sequences of code points. att = FALSE: the tiers stand  *)
(* alone, outside any IGT; a tier of the doc may also hold loose items.      *)
EXTENDS Refs

ERR == [k |-> "err", t |-> <<>>]
NONE == [k |-> "none", t |-> <<>>]
TXT(t) == [k |-> "text", t |-> t]

Pos(xs, id) == {j \in 1..Len(xs) : xs[j].id = id}

RECURSIVE Value(_, _, _, _)
(* value of item x standing on tier ti (0: on none) *)
Value(doc, att, ti, x) ==
  IF x.text # <<>> THEN TXT(x.text[1])
  ELSE IF x.c = <<>> /\ x.s = <<>> THEN NONE
  ELSE LET e == IF x.c # <<>> THEN x.c[1] ELSE x.s[1]
           r == IF ti = 0 THEN <<>> ELSE IF x.c # <<>> THEN doc[ti].c ELSE doc[ti].s
           ts == IF r = <<>> \/ ~att THEN {} ELSE Pos(doc, r[1])
           p == Parse(e)
       IN IF ts = {} THEN ERR
          ELSE LET tj == CHOOSE j \in ts : TRUE
                   V(id) == LET is == Pos(doc[tj].items, id) IN
                            IF is = {} THEN [k |-> "missing", t |-> <<>>]
                            ELSE Value(doc, att, tj, doc[tj].items[CHOOSE j \in is : TRUE])
               IN Resolved(p, V)

(* the value by other attributes than usual, in the order given ("c", "s")   *)
RefOf(x, f) == IF f = "c" THEN x.c ELSE x.s
ByRef(doc, att, ti, x, f) == IF RefOf(x, f) = <<>> THEN ERR
  ELSE IF f = "c" THEN Value(doc, att, ti, [x EXCEPT !.text = <<>>]) ELSE Value(doc, att, ti, [x EXCEPT !.text = <<>>, !.c = <<>>])
ValueBy(doc, att, ti, x, fs) ==
  LET h == SelectSeq(fs, LAMBDA f : RefOf(x, f) # <<>>) IN
  IF x.text # <<>> THEN TXT(x.text[1]) ELSE IF h = <<>> THEN NONE ELSE ByRef(doc, att, ti, x, h[1])

Span(v, a, b) == IF v.k = "text" THEN TXT(Slice(v.t, a, b)) ELSE v
=============================================================================
