--------------------------- MODULE Trace_RefGraph ---------------------------
(* case: [doc, anc: seq of [ti, is, ras, steps, end],                        *)
(*        desc: seq of [ti, is, ras, first, steps, end],                     *)
(*        sorts: seq of [ras, got, again, intact]]                           *)
EXTENDS RefGraph, TLC, Json, IOUtils
R == INSTANCE Refs
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0

At(at) == [k \in 1..Len(at) |-> <<at[k][1], R!Mentions(at[k][2])>>]
Read(d) == [ti \in 1..Len(d) |->
  [id |-> d[ti].id, at |-> At(d[ti].at),
   items |-> [ii \in 1..Len(d[ti].items) |-> [id |-> d[ti].items[ii].id, at |-> At(d[ti].items[ii].at)]]]]
BadAnc(d, x) == LET e == Ancestors(d, x.ti, x.is, x.ras) IN
  x.steps # e.steps \/ (e.end = "end" /\ x.end # "end") \/ x.end = "hang"
BadDesc(d, x) == x.end # "end" \/ x.steps # Descendants(d, x.ti, x.is, x.ras, x.first)
BadSort(d, x) == ~x.intact \/ ~GoodOrder(d, x.ras, x.got) \/ (Acyclic(d, x.ras) /\ x.again # x.got)
Wrong(d, x) == (IF \E k \in 1..Len(x.anc) : BadAnc(d, x.anc[k]) THEN {"G01"} ELSE {})
  \cup (IF \E k \in 1..Len(x.desc) : BadDesc(d, x.desc[k]) THEN {"G02"} ELSE {})
  \cup (IF \E k \in 1..Len(x.sorts) : BadSort(d, x.sorts[k]) THEN {"G03"} ELSE {})
Exp(d, x) ==
  [anc |-> [k \in 1..Len(x.anc) |-> Ancestors(d, x.anc[k].ti, x.anc[k].is, x.anc[k].ras)],
   desc |-> [k \in 1..Len(x.desc) |-> Descendants(d, x.desc[k].ti, x.desc[k].is, x.desc[k].ras, x.desc[k].first)],
   sorts |-> [k \in 1..Len(x.sorts) |-> SortOrder(d, x.sorts[k].ras)]]
Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1]
               d == TLCEval(Read(x.doc))
               b == Wrong(d, x) IN
           IF b = {} THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> b, exp |-> Exp(d, x)]))
=============================================================================
