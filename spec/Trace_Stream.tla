---------------------------- MODULE Trace_Stream ----------------------------
(* trace: [n, mode, ev: seq of [op, i, out, ok]]; ok: "" if owners, equality *)
(* and corpus-level data of what was seen were right                            *)
EXTENDS Stream, TLC, Json, IOUtils
VARIABLES tid, l, s, stop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0 /\ s = Start(Traces[tid].n, Traces[tid].mode) /\ stop = FALSE
Next == /\ ~stop /\ l < Len(Traces[tid].ev) /\ UNCHANGED tid /\ l' = l + 1
        /\ LET e == Traces[tid].ev[l + 1]
               r == Do(s, e)
           IN IF e.ok = "" /\ e.out = r.out THEN s' = r.s /\ UNCHANGED stop
              ELSE /\ PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, op |-> e.op, i |-> e.i, ok |-> e.ok, got |-> e.out, exp |-> r.out]))
                   /\ stop' = TRUE /\ UNCHANGED s
=============================================================================
