--------------------------- MODULE Trace_Resolve ---------------------------
(* case: [doc, att, got: per tier, per item: v, v2: [k, t],                  *)
(*        spans: seq of [ti, ii, a, b, got], loose: [x, got],                *)
(*        by: seq of [ti, ii, fs: attributes, got, f, ref: resolve_ref(f)]]  *)
EXTENDS Resolve, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0

Val(x, ti, ii) == Value(x.doc, x.att, ti, x.doc[ti].items[ii])
Wrong(x) ==
  {<<ti, ii>> \in UNION {{ti} \X (1..Len(x.doc[ti].items)) : ti \in 1..Len(x.doc)} :
      LET v == Val(x, ti, ii) IN x.got[ti][ii].v # v \/ x.got[ti][ii].v2 # v}
  \cup {<<0, k>> : k \in {k \in 1..Len(x.spans) :
         LET q == x.spans[k] IN q.got # Span(Val(x, q.ti, q.ii), q.a, q.b)}}
  \cup {<<-1, k>> : k \in {k \in 1..Len(x.loose) : x.loose[k].got # Value(x.doc, x.att, 0, x.loose[k].x)}}
  \cup {<<-2, k>> : k \in {k \in 1..Len(x.by) : x.by[k].got # ValueBy(x.doc, x.att, x.by[k].ti, x.doc[x.by[k].ti].items[x.by[k].ii], x.by[k].fs)}}
  \cup {<<-3, k>> : k \in {k \in 1..Len(x.by) : x.by[k].ref # ByRef(x.doc, x.att, x.by[k].ti, x.doc[x.by[k].ti].items[x.by[k].ii], x.by[k].f)}}
Exp(x, w) == CASE w[1] > 0 -> Val(x, w[1], w[2])
               [] w[1] = 0 -> LET q == x.spans[w[2]] IN Span(Val(x, q.ti, q.ii), q.a, q.b)
               [] w[1] = -2 -> LET q == x.by[w[2]] IN ValueBy(x.doc, x.att, q.ti, x.doc[q.ti].items[q.ii], q.fs)
               [] w[1] = -3 -> LET q == x.by[w[2]] IN ByRef(x.doc, x.att, q.ti, x.doc[q.ti].items[q.ii], q.f)
               [] OTHER -> Value(x.doc, x.att, 0, x.loose[w[2]].x)

Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1]
               b == Wrong(x) IN
           IF b = {} THEN TRUE
           ELSE LET w == CHOOSE w \in b : TRUE IN
                PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> {"E03"}, at |-> w, exp |-> Exp(x, w)]))
=============================================================================
