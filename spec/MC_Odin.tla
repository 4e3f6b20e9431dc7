------------------------------ MODULE MC_Odin ------------------------------
(* Mode "text": all short texts over the edges of the accepted ranges;       *)
(* "shape": small sequences of blocks with every presence of their parts     *)
EXTENDS Odin, TLC, Json
CONSTANTS Mode, MaxL
VARIABLES c, out

Cs == {97, 9, 10, 32, 0, 8, 11, 12, 31, 127, 133, 55295, 55296, 57343, 57344, 65533, 65534, 65535, 65536, 119070, 1114111}
Reps == {<<65533>>, <<>>, <<92, 49>>, <<63, 97, 63>>, <<92, 103, 60, 48, 62>>, <<92>>}
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
L(t, a) == [text |-> t, at |-> a]
LN(k) == {<<"line", Digits(k)>>, <<"tag", <<76>>>>}
B(id, hdr, code, lang, lines) == [id |-> id, doc |-> <<49, 46, 116>>, range |-> <<<<55>>, <<57>>>>, types |-> <<76, 32, 71>>, hdr |-> hdr, code |-> code, lang |-> lang, lines |-> lines]
Ids == {<<>>, << <<105, 49>> >>}
Hdrs == {<<>>, << <<97>> >>, << <<>>, <<32, 97, 11>>, <<60>> >>}
Codes == {<<>>, << <<97, 98>> >>, << <<32, 97, 10>> >>, << <<>> >>}
Langs == {<<>>, << <<>> >>, << <<32>> >>, << <<97, 66, 32, 233, 97, 39, 99, 45, 100, 49, 101, 32>> >>, << <<233, 201>> >>}
Liness == {<<>>, <<L(<<97, 1>>, LN(1))>>, <<L(<<>>, {}), L(<<97, 32>>, LN(2)), L(<<97, 32>>, LN(2))>>}
Init ==
  \/ /\ Mode = "text"
     /\ \E rep \in Reps, keep \in BOOLEAN : \E n \in 0..MaxL : \E t \in [1..n -> Cs] :
          c = [bs |-> <<B(<< <<105>> >>, <<<<120>>, t>>, << <<97>> >>, << <<97>> >>, <<L(t, LN(1)), L(t, LN(2))>>)>>, o |-> [keep |-> keep, rep |-> rep]]
     /\ out = File(c.bs, c.o)
  \/ /\ Mode = "shape"
     /\ \E keep \in BOOLEAN : \E i \in Ids, h \in Hdrs, co \in Codes, la \in Langs, ls \in Liness, n \in 1..3 :
          LET b == B(i, h, co, la, ls)
              z == B(<< <<122>> >>, << <<122>> >>, << <<122, 122>> >>, << <<122, 65>> >>, <<L(<<122>>, {<<"tag", <<90>>>>})>>)
          IN c = [bs |-> IF n = 1 THEN <<b>> ELSE IF n = 2 THEN <<z, b>> ELSE <<b, z, b>>, o |-> [keep |-> keep, rep |-> <<65533>>]]
     /\ out = File(c.bs, c.o)
Next == UNCHANGED <<c, out>>

(* nothing lost, moved or shared *)
Each == /\ Len(out) = Len(c.bs)
        /\ \A k \in 1..Len(out) : /\ out[k].id = c.bs[k].id
                                  /\ Len(out[k].items) = Len(c.bs[k].lines)
                                  /\ \A j \in 1..Len(out[k].items) : out[k].items[j].at = c.bs[k].lines[j].at
                                  /\ \A i, j \in 1..Len(out[k].items) : i # j => out[k].items[i].id # out[k].items[j].id
                                  /\ (out[k].hdr # <<>>) = (c.o.keep /\ c.bs[k].hdr # <<>>)
(* only unacceptable characters change *)
Good(t) == SelectSeq(t, Accepted)
Cleaned == \A k \in 1..Len(out) : \A j \in 1..Len(out[k].items) :
  LET t == c.bs[k].lines[j].text u == out[k].items[j].text IN
    /\ \A i \in 1..Len(u) : Accepted(u[i])
    /\ (Good(t) = t => u = t)
    /\ Len(u) = Len(Good(t)) + (Len(t) - Len(Good(t))) * Len(c.o.rep)
    /\ (c.o.rep = <<>> => u = Good(t))
    /\ Clean(u, c.o.rep) = u
Emit == PrintT("@@CASE " \o ToJson([c |-> c, out |-> out]))
=============================================================================
