---------------------------- MODULE Trace_Latex ----------------------------
(* cases, by t: file [doc, o, head, foot, ok, text], esc [s, ok, text]          *)
EXTENDS Latex, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0
Expected(x) == IF x.t = "file" THEN FileText(x.doc, x.o, x.head, x.foot) ELSE Escape(x.s)
Skip(x) == x.t = "file" /\ \E g \in ToSet(x.doc[1].ch) : ~IgtDefined(x.doc, g, x.o)
Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1] IN
           IF Skip(x) THEN TRUE
           ELSE IF x.ok = "" /\ x.text = Expected(x) THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> IF x.ok # "" THEN x.ok ELSE "text", exp |-> Expected(x)]))
=============================================================================
