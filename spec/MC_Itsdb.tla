------------------------------ MODULE MC_Itsdb ------------------------------
(* All sequences of up to MaxC cells over a vocabulary of expressions and    *)
(* keys, on the document in DOC_FILE                                         *)
EXTENDS Itsdb, TLC, Json, IOUtils
CONSTANTS MaxC
VARIABLES c, out
Doc == ndJsonDeserialize(IOEnv.DOC_FILE)[1]
E(op, a, n, t, es) == [op |-> op, a |-> a, n |-> n, t |-> t, es |-> es]
Es == {E("num", "", 1, <<>>, <<>>), E("id", "", 0, <<>>, <<>>), E("attr", "a", 0, <<>>, <<>>), E("ntiers", "", 0, <<>>, <<>>), E("tierid", "", 1, <<>>, <<>>),
       E("nitems", "", 0, Words, <<>>), E("first", "", 0, Words, <<>>), E("join", "", 0, Words, <<>>), E("input", "", 0, <<>>, <<>>),
       E("or", "", 0, <<>>, <<E("attr", "a", 0, <<>>, <<>>), E("text", "", 0, <<120>>, <<>>)>>)}
Keys == {<<97>>, <<98>>, InputKey}
Cells == {[key |-> k, e |-> e] : k \in Keys, e \in Es}
Init == /\ \E n \in 0..MaxC : \E cs \in [1..n -> Cells] : \E s \in {<<0, 10>>, <<7, 3>>, <<5, 0>>, <<-2, -1>>} :
             /\ (n > 1 => s = <<0, 10>>) /\ (n > 2 => cs[1].e.op \in {"id", "ntiers", "input"})
             /\ c = [start |-> s[1], skip |-> s[2], cells |-> cs]
        /\ out = Rows(Doc, c)
Next == UNCHANGED <<c, out>>
(* one row per igt, ids in steps *)
Steps == Len(out) = Len(Igts(Doc)) /\ (Len(out) > 0 => out[1].id = c.start) /\ \A k \in 1..Len(out) - 1 : out[k + 1].id - out[k].id = c.skip
(* each key once; a cell has the value it has alone *)
Apart == \A k \in 1..Len(out) : /\ {x[1] : x \in out[k].row} = {c.cells[j].key : j \in 1..Len(c.cells)}
                                /\ Cardinality(out[k].row) = Cardinality({c.cells[j].key : j \in 1..Len(c.cells)})
                                /\ \A j \in 1..Len(c.cells) : LastOf(c.cells, c.cells[j].key) = j =>
                                     Row(Doc, Igts(Doc)[k], <<c.cells[j]>>) \subseteq out[k].row
(* the order of cells with different keys does not matter *)
Order == Cardinality({c.cells[j].key : j \in 1..Len(c.cells)}) = Len(c.cells) =>
  \A k \in 1..Len(out) : Row(Doc, Igts(Doc)[k], [j \in 1..Len(c.cells) |-> c.cells[Len(c.cells) + 1 - j]]) = out[k].row
Emit == PrintT("@@CASE " \o ToJson([c |-> c, out |-> out]))
=============================================================================
