--------------------------- MODULE Trace_Toolbox ---------------------------
(* a case [rs, o, ok, igts, odd]: at of an igt comes as a sequence           *)
EXTENDS Toolbox, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0
Got(x) == [k \in 1..Len(x.igts) |-> [x.igts[k] EXCEPT !.at = {@[j] : j \in 1..Len(@)}]]
Opt(x) == [x.o EXCEPT !.loose = {@[j] : j \in 1..Len(@)}]
Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1] IN
           IF x.ok = "" /\ x.odd = "" /\ Got(x) = Corpus(x.rs, Opt(x)) THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> <<x.ok, x.odd>>, exp |-> Corpus(x.rs, Opt(x))]))
=============================================================================
