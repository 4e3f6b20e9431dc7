------------------------------- MODULE Stream -------------------------------
(* A corpus opened in full, incremental or transient mode (X04). The IGTs of *)
(* the document are 1..n. State: [n, mode, next, full, held, its]            *)
(*   next: the IGT to be read next; full: all were read (iteration is over   *)
(*   what is held); held: IGTs the corpus holds; its: iterators [st, pos],   *)
(*   st "new", "stream", "full" or "done".                                   *)
EXTENDS Integers, Sequences, SequencesExt
Start(n, mode) == IF mode = "full"
  THEN [n |-> n, mode |-> mode, next |-> n + 1, full |-> TRUE, held |-> [k \in 1..n |-> k], its |-> <<>>]
  ELSE [n |-> n, mode |-> mode, next |-> 1, full |-> FALSE, held |-> <<>>, its |-> <<>>]

Open(s) == [s |-> [s EXCEPT !.its = Append(@, [st |-> "new", pos |-> 0])], out |-> <<>>]
(* one step of iterator i: out is <<k>>, or <<>> at the end *)
Kind(s, i) == IF s.its[i].st # "new" THEN s.its[i].st ELSE IF s.full THEN "full" ELSE "stream"
Step(s, i) ==
  LET kd == Kind(s, i)
      put(x) == [s EXCEPT !.its[i] = x]
      p == s.its[i].pos
  IN IF kd = "done" THEN [s |-> s, out |-> <<>>]
     ELSE IF kd = "stream"
     THEN IF s.next <= s.n
          THEN [s |-> [put([st |-> kd, pos |-> p]) EXCEPT !.next = @ + 1, !.held = IF s.mode = "incremental" THEN Append(@, s.next) ELSE @],
                out |-> <<s.next>>]
          ELSE [s |-> [put([st |-> "done", pos |-> p]) EXCEPT !.full = TRUE], out |-> <<>>]
     ELSE IF p < Len(s.held) THEN [s |-> put([st |-> kd, pos |-> p + 1]), out |-> <<s.held[p + 1]>>]
          ELSE [s |-> put([st |-> "done", pos |-> p]), out |-> <<>>]
(* a whole iteration *)
RECURSIVE Drain(_, _, _)
Drain(s, i, acc) == LET r == Step(s, i) IN IF r.out = <<>> THEN [s |-> r.s, out |-> acc] ELSE Drain(r.s, i, acc \o r.out)
All(s) == LET o == Open(s).s
              r == Drain(o, Len(o.its), <<>>)
          IN [s |-> [r.s EXCEPT !.its = SubSeq(@, 1, Len(@) - 1)], out |-> r.out]
(* what one can ask without iterating *)
Get(s, k) == IF \E j \in 1..Len(s.held) : s.held[j] = k THEN <<k>> ELSE <<>>
At(s, j) == IF j < Len(s.held) THEN <<s.held[j + 1]>> ELSE <<>>

Do(s, e) ==
  CASE e.op = "open" -> Open(s)
    [] e.op = "step" -> Step(s, e.i)
    [] e.op = "all" -> All(s)
    [] e.op = "len" -> [s |-> s, out |-> <<Len(s.held)>>]
    [] e.op = "get" -> [s |-> s, out |-> Get(s, e.i)]
    [] e.op = "at" -> [s |-> s, out |-> At(s, e.i)]
    [] e.op = "drop" -> [s |-> [s EXCEPT !.its[e.i] = [st |-> "done", pos |-> 0]], out |-> <<>>]
=============================================================================
