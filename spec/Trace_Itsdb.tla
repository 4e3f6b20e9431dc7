---------------------------- MODULE Trace_Itsdb ----------------------------
(* case: [doc, c, own, rel, err, calls, odd]: own whether cells were         *)
(* configured; rel the relations file that was found, <<>> none; calls the   *)
(* sequence of profiles written, [rel, rows]                                 *)
EXTENDS Itsdb, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0
Cfg(x) == IF x.own THEN x.c ELSE [x.c EXCEPT !.cells = DefaultCells]
GotRows(rs) == [k \in 1..Len(rs) |-> [id |-> rs[k].id, row |-> {rs[k].row[j] : j \in 1..Len(rs[k].row)}]]
Right(x) == IF x.rel = <<>> THEN x.calls = <<>> /\ ~x.err
            ELSE IF \E k \in 1..Len(Cfg(x).cells) : Cfg(x).cells[k].e.op = "bad" /\ LastOf(Cfg(x).cells, Cfg(x).cells[k].key) = k THEN Igts(x.doc) # <<>> => x.err
            ELSE IsDefined(x.doc, Cfg(x)) =>
                 /\ ~x.err /\ x.odd = "" /\ Len(x.calls) = x.times
                 /\ \A k \in 1..Len(x.calls) : x.calls[k].rel = x.rel[1] /\ GotRows(x.calls[k].rows) = Rows(x.doc, Cfg(x))
Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1] IN
           IF Right(x) THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> <<x.odd>>, exp |-> Rows(x.doc, Cfg(x))]))
=============================================================================
