------------------------------ MODULE MC_Expr ------------------------------
(* All small reference expressions over three ids; the rewriting laws hold   *)
(* of the specification itself, and each expression is emitted for the code. *)
EXTENDS Refs, TLC, Json
CONSTANTS MaxSel, MaxSpan, Wide

Ids == IF Wide THEN { <<97>>, <<97, 49>>, <<98, 45, 49>> } ELSE { <<97>>, <<97, 49>> }
Delims == IF Wide THEN { <<44>>, <<43>>, <<32>>, <<59>>, <<32, 32>>, <<10>> } ELSE { <<44>>, <<43>>, <<32>>, <<32, 32>> }
Pairs == IF Wide THEN { << <<48>>, <<50>> >>, << <<49>>, <<45, 49>> >>, << <<50>>, <<49, 48>> >>, << <<45, 50>>, <<49>> >> }
         ELSE { << <<48>>, <<50>> >>, << <<49>>, <<45, 49>> >> }
SpanDelims == { <<44>>, <<43>> }
MkSpan(d, x, y) == [d |-> d, x |-> x, y |-> y, a |-> IntVal(x), b |-> IntVal(y)]
Pads == { <<>>, <<32>> }

VARIABLES p, open
(* the expression is built from left to right *)
Init == \E d \in Pads, i \in Ids : p = [ok |-> TRUE, sels |-> << [d |-> d, id |-> i, spans |-> <<>>] >>, trail |-> <<>>]
                                  /\ open = TRUE
AddSpan == /\ open
           /\ LET n == Len(p.sels) k == Len(p.sels[n].spans) IN
              /\ k < MaxSpan
              /\ \E q \in Pairs, d \in SpanDelims :
                   /\ k > 0 \/ d = <<44>>
                   /\ p' = [p EXCEPT !.sels[n].spans = Append(@, MkSpan(IF k = 0 THEN <<>> ELSE d, q[1], q[2]))]
           /\ UNCHANGED open
AddSel == /\ open /\ Len(p.sels) < MaxSel
          /\ \E d \in Delims, i \in Ids : p' = [p EXCEPT !.sels = Append(@, [d |-> d, id |-> i, spans |-> <<>>])]
          /\ UNCHANGED open
Close == /\ open /\ open' = FALSE /\ p' = [p EXCEPT !.trail = <<32>>]
Next == AddSpan \/ AddSel \/ Close

Faithful == Parse(Text(p)) = p
Laws == LET x == ExpandP(p) c == CompressP(p) cx == CompressP(x) IN
  /\ Pieces(x) = Pieces(p) /\ Pieces(c) = Pieces(p) /\ Pieces(cx) = Pieces(p)
  /\ ExpandP(x) = x /\ CompressP(cx) = cx
  /\ Parse(Text(x)) = x /\ Parse(Text(c)) = c
  /\ Flat(SelList(p)) = Text(p)
  /\ Mentions(Text(p)) = IdsOf(p)
(* the older functions agree with the current ones *)
ValOf(i) == IF i = <<97>> THEN [k |-> "text", t |-> <<120, 121, 122>>] ELSE IF i = <<97, 49>> THEN [k |-> "text", t |-> <<100, 32>>] ELSE [k |-> "none", t |-> <<>>]
Plain == \A k \in 1..Len(p.sels) : k > 1 => Len(p.sels[k].d) = 1
OldAgrees == Plain => LegacyText(p, ValOf) = Resolved(p, ValOf).t
Emit == PrintT("@@CASE " \o ToJson([e |-> Text(p)]))
=============================================================================
