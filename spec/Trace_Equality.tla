--------------------------- MODULE Trace_Equality ---------------------------
EXTENDS Equality, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0

Bad(x) ==
  LET e == Equal(x.a, x.b) IN
  IF x.eq = e /\ x.qe = e /\ x.ne = ~e /\ x.en = ~e /\ x.ok THEN {} ELSE {"C04"}

Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET b == Bad(Traces[tid].ev[l + 1]) IN
           IF b = {} THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> b,
                   exp |-> Equal(Traces[tid].ev[l + 1].a, Traces[tid].ev[l + 1].b)]))
=============================================================================
