-------------------------- MODULE Trace_Attributes --------------------------
(* case: [chain, at: seq of [n, q, inh, got]; got: optional value],          *)
(*       [levels, meta: seq of [n, key, conds, inh, got]],                   *)
(*       [sel: seq of [table, xs, req, got]]                                 *)
EXTENDS Attributes, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0
BadAt(x) == {k \in 1..Len(x.at) : LET a == x.at[k] IN
   Proper(x.chain, a.n, a.q) /\ a.got # Lookup(x.chain, a.n, a.q, a.inh)}
BadMeta(x) == {k \in 1..Len(x.meta) : LET a == x.meta[k] IN a.got # GetMeta(x.levels, a.n, a.key, ToSet(a.conds), a.inh)}
BadSel(x) == {k \in 1..Len(x.sel) : LET a == x.sel[k] IN a.got # Select(a.table, a.xs, a.req)}
Wrong(x) == (IF BadAt(x) # {} THEN {"A01"} ELSE {}) \cup (IF BadMeta(x) # {} \/ BadSel(x) # {} THEN {"A02"} ELSE {})
Exp(x) ==
  [at |-> {LET a == x.at[k] IN [k |-> k, q |-> a.q, got |-> a.got, exp |-> Lookup(x.chain, a.n, a.q, a.inh)] : k \in BadAt(x)},
   meta |-> {LET a == x.meta[k] IN [k |-> k, got |-> a.got, exp |-> GetMeta(x.levels, a.n, a.key, ToSet(a.conds), a.inh)] : k \in BadMeta(x)},
   sel |-> {LET a == x.sel[k] IN [k |-> k, req |-> a.req, got |-> a.got, exp |-> Select(a.table, a.xs, a.req)] : k \in BadSel(x)}]
Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1]
               b == Wrong(x) IN
           IF b = {} THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> b, exp |-> Exp(x)]))
=============================================================================
