---------------------------- MODULE Trace_Codec ----------------------------
(* case: [t: "x01", e, got] | [t: "x02", d, after, e, e2, re, junk]          *)
(*     | [t: "x03", d, after, j, re, xj: seq of cross-format results]        *)
(*     | [t: "x06", j, got]                                                  *)
(*     | [t: "x05", k, d, after, e, re, junk, equal, ctx, j, rj, jequal]:    *)
(*       a part d of a corpus, as the code shows it, encoded on its own      *)
EXTENDS Codec, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0
Same(n, m) == Sound(n) /\ Taken(n) = m
Bad(x) ==
  IF x.err # "" THEN {x.err}
  ELSE CASE x.t = "x01" -> IF Same(x.got, ReadX(x.e)) THEN {} ELSE {"loaded"}
    [] x.t = "x06" -> IF Same(x.got, ReadJ(x.j)) THEN {} ELSE {"loaded"}
    [] x.t = "x02" -> LET d == TLCEval(Mean(x.d, {})) IN
         (IF x.after THEN {} ELSE {"altered"}) \cup (IF ReadX(x.e) = d THEN {} ELSE {"written"})
         \cup (IF Known("corpus", x.e) /\ ~x.junk THEN {} ELSE {"extra"})
         \cup (IF Same(x.re, d) THEN {} ELSE {"reloaded"}) \cup (IF x.equal THEN {} ELSE {"unequal"})
         \cup (IF ReadX(x.e2) = d THEN {} ELSE {"rewritten"})
    [] x.t = "x03" -> LET d == TLCEval(Taken(x.d)) IN
         (IF x.after THEN {} ELSE {"altered"}) \cup (IF ReadJ(x.j) = d THEN {} ELSE {"written"})
         \cup (IF Same(x.re, d) THEN {} ELSE {"reloaded"}) \cup (IF x.equal THEN {} ELSE {"unequal"})
         \cup UNION {IF Same(x.xj[k].n, d) /\ x.xj[k].equal THEN {} ELSE {"crossed"} : k \in 1..Len(x.xj)}
    [] x.t = "x05" -> LET d == TLCEval(Mean(x.d, {}))
                          dj == TLCEval(Mean(x.d, ToSet(x.ctx))) IN
         (IF x.after THEN {} ELSE {"altered"})
         \cup (IF LoadX(x.k, x.e, {}) = d THEN {} ELSE {"written"}) \cup (IF Known(x.k, x.e) /\ ~x.junk THEN {} ELSE {"extra"})
         \cup (IF Same(x.re, d) THEN {} ELSE {"reloaded"}) \cup (IF x.equal THEN {} ELSE {"unequal"})
         \cup (IF LoadJ(x.k, x.j, ToSet(x.ctx)) = dj THEN {} ELSE {"jwritten"})
         \cup (IF Same(x.rj, dj) THEN {} ELSE {"jreloaded"}) \cup (IF x.jequal THEN {} ELSE {"junequal"})
Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET b == Bad(Traces[tid].ev[l + 1]) IN
           IF b = {} THEN TRUE ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> b]))
=============================================================================
