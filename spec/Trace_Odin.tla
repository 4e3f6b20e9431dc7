----------------------------- MODULE Trace_Odin -----------------------------
(* a case [fs, dir, suf, o, ok, outs, odd]: fs the input files, dir whether  *)
(* they were imported as a directory, outs the sequence of files written.    *)
(* Attributes of lines and items come as sequences of <<name, text>>.        *)
EXTENDS Odin, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0
Set(s) == {s[j] : j \in 1..Len(s)}
GotI(g) == [g EXCEPT !.items = [k \in 1..Len(@) |-> [@[k] EXCEPT !.at = Set(@)]]]
Got(x) == {[name |-> x.outs[k].name, igts |-> [j \in 1..Len(x.outs[k].igts) |-> GotI(x.outs[k].igts[j])]] : k \in 1..Len(x.outs)}
Blocks(bs) == [k \in 1..Len(bs) |-> [bs[k] EXCEPT !.lines = [j \in 1..Len(@) |-> [@[j] EXCEPT !.at = Set(@)]]]]
Exp(x) == LET fs == [k \in 1..Len(x.fs) |-> [name |-> x.fs[k].name, bs |-> Blocks(x.fs[k].bs)]] IN
  IF x.dir THEN Directory(fs, x.suf, x.o) ELSE {[name |-> OutName(fs[1].name, x.suf), igts |-> File(fs[1].bs, x.o)]}
Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1] IN
           IF x.ok = "" /\ x.odd = "" /\ Len(x.outs) = Cardinality(Exp(x)) /\ Got(x) = Exp(x) THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> <<x.ok, x.odd>>, exp |-> Exp(x)]))
=============================================================================
