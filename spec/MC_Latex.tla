----------------------------- MODULE MC_Latex -----------------------------
(* bounded instances; Mode: "table" (three tiers), "escape"                  *)
EXTENDS Latex, Json
CONSTANTS Mode, N1, N2, N3, Len0
VARIABLES c, out

UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
id(t, k) == << <<96 + t, 48 + k>> >>
Seqs(t, n) == {SetToSeq(S) : S \in SUBSET {id(t, k)[1] : k \in 1..n}} \cup (IF n > 1 THEN {<<id(t, 2)[1], id(t, 1)[1]>>} ELSE {})
Mk(t, refs) == [k \in 1..Len(refs) |-> [n |-> 10 * t + k, id |-> id(t, k), refs |-> refs[k]]]
Refs2(n1) == Seqs(1, n1)
Refs3(n1, n2) == Seqs(2, n2) \cup {<<id(1, k)[1]>> : k \in 1..n1}
Alphabet == {92, 38, 123, 125, 126, 94, 32, 97}
Init ==
  \/ /\ Mode = "table" /\ \E n1 \in 0..N1, n2 \in 0..N2, n3 \in 0..N3 : \E r2 \in [1..n2 -> Refs2(n1)], r3 \in [1..n3 -> Refs3(n1, n2)] :
          c = [ts |-> <<Mk(1, [k \in 1..n1 |-> <<>>]), Mk(2, r2), Mk(3, r3)>>]
     /\ AllMonotone(Start(c.ts[1]), Tail(c.ts))
     /\ out = [tab |-> Table(c.ts)]
  \/ /\ Mode = "escape" /\ c \in [s : UpTo(Alphabet, Len0)] /\ out = [e |-> Escape(c.s)]
Next == UNCHANGED <<c, out>>

Row(r) == Cat([k \in 1..Len(out.tab) |-> out.tab[k][r]])
Where(x) == CHOOSE k \in 1..Len(out.tab) : \E r \in 1..3 : x \in ToSet(out.tab[k][r])
(* every item once, on the line of its tier, in order *)
Once == Mode = "table" => \A t \in 1..3 : Row(t) = c.ts[t]
Even == Mode = "table" => \A k \in 1..Len(out.tab) : Len(out.tab[k]) = 3 /\ out.tab[k] # << <<>>, <<>>, <<>> >>
(* with what it is aligned to *)
Aligned == Mode = "table" => \A t \in 2..3 : \A x \in ToSet(c.ts[t]) : \A s \in 1..t - 1 : \A y \in ToSet(c.ts[s]) :
  (\E k \in 1..Len(x.refs) : <<x.refs[k]>> = y.id) => Where(x) = Where(y)
(* unaligned items that nothing refers to have a column of their own, unless *)
(* neighbours of their tier are in it                                        *)
Alone == Mode = "table" => \A t \in 2..3 : \A x \in ToSet(c.ts[t]) :
  (/\ \A s \in 1..t - 1 : \A y \in ToSet(c.ts[s]) : \A k \in 1..Len(x.refs) : <<x.refs[k]>> # y.id
   /\ \A s \in t + 1..3 : c.ts[s] = <<>>)
  => \/ \A r \in 1..3 : r # t => out.tab[Where(x)][r] = <<>>
     \/ LET row == out.tab[Where(x)][t] IN row[1] # x /\ row[Len(row)] # x
(* columns are merged only where an item spans them *)
Finest == Mode = "table" /\ (\A t \in 2..3 : \A x \in ToSet(c.ts[t]) : Len(x.refs) <= 1) => \A k \in 1..Len(out.tab) : Len(out.tab[k][1]) <= 1
Reads == Mode = "escape" => Read(out.e) = c.s
Parts == Mode = "escape" => \A k \in 0..Len(c.s) : out.e = Escape(SubSeq(c.s, 1, k)) \o Escape(SubSeq(c.s, k + 1, Len(c.s)))
Emit == PrintT("@@CASE " \o ToJson([c |-> c, out |-> out]))
=============================================================================
