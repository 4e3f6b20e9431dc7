---------------------------- MODULE Trace_XPath ----------------------------
(* case: [doc, qs: seq of [p, end, refused, c, got, first, lazy]]                          *)
EXTENDS XPath, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0
Wrong(doc, q) == LET r == Answer(doc, q.p, N(q.c)) IN
  IF Refuses(q.end) THEN q.refused # <<"find", "findall", "iterfind">> ELSE Defined(r) /\ (q.err \/ q.got # r \/ q.first # First(r) \/ q.lazy # r)
Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1]
               b == {k \in 1..Len(x.qs) : Wrong(x.doc, x.qs[k])} IN
           IF b = {} THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> b,
                  exp |-> {[k |-> k, r |-> Answer(x.doc, x.qs[k].p, N(x.qs[k].c))] : k \in b}]))
=============================================================================
