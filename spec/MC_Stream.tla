----------------------------- MODULE MC_Stream -----------------------------
EXTENDS Stream, TLC, Json
CONSTANTS N, Depth
VARIABLES s, hist, got
Init == \E m \in {"full", "incremental", "transient"}, n \in 0..N : s = Start(n, m) /\ hist = <<>> /\ got = <<>>
E(op, i) == [op |-> op, i |-> i]
Ops == {E("open", 0)} \cup {E("step", i) : i \in 1..Len(s.its)} \cup {E("drop", i) : i \in 1..Len(s.its)} \cup {E("all", 0), E("len", 0)}
       \cup {E("get", i) : i \in {1, N}} \cup {E("at", 0)}
Next == /\ Len(hist) < Depth
        /\ \E e \in Ops : /\ (e.op = "open" => Len(s.its) < 2)
                          /\ LET r == Do(s, e) IN
                             /\ s' = r.s
                             /\ hist' = Append(hist, [op |-> e.op, i |-> e.i, out |-> r.out])
                             /\ got' = IF ~s.full /\ e.op \in {"step", "all"} THEN got \o r.out ELSE got
(* what streams is delivered once, in order; the corpus holds just that, or nothing *)
InOrder == s.mode # "full" => got = [k \in 1..s.next - 1 |-> k]
Holds == s.held = IF s.mode = "transient" THEN <<>> ELSE [k \in 1..s.next - 1 |-> k]
Emit == Len(hist) < Depth \/ PrintT("@@CASE " \o ToJson([mode |-> s.mode, n |-> s.n, hist |-> hist]))
=============================================================================
