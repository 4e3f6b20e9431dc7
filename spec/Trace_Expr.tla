----------------------------- MODULE Trace_Expr -----------------------------
(* Judges what the code did with reference expressions.                      *)
(* case: [e, vals: seq of [id, v: [k, t]], tier, igt: [k, t],                *)
(*   x: expand(e), xx: expand(x), c: compress(e), cx: compress(x),           *)
(*   cc: compress(cx), sel, seln, sp, spn: lists, ids, rx, rc: resolutions   *)
(*   of x and c, ok: no call failed,                                         *)
(*   old: <<>> or <<[ids, spans, text, warns, al: seq of [want, got]]>>: what*)
(*   the older functions gave; al: tiers by attribute]                       *)
EXTENDS Refs, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0

Val(vals, id) == IF \E j \in 1..Len(vals) : vals[j].id = id
                 THEN vals[CHOOSE j \in 1..Len(vals) : vals[j].id = id].v
                 ELSE [k |-> "missing", t |-> <<>>]
SamePieces(p, t) == LET q == Parse(t) IN q.ok /\ Pieces(q) = Pieces(p)
Exp(x) == LET p == Parse(x.e) V(id) == Val(x.vals, id) IN Resolved(p, V)
Wrong(x) ==
  LET p == Parse(x.e)
      r == Exp(x)
      xp == ExpandP(p)
      q == Parse(x.x)
      c == Parse(x.c)
      V(id) == Val(x.vals, id)
  IN IF ~p.ok THEN {"DOMAIN"} ELSE
     (IF x.old # <<>> /\
           ~LET o == x.old[1]
                miss == {k \in 1..Len(Pieces(p)) : V(Pieces(p)[k].id).k = "missing"}
            IN /\ o.ids = IdsOf(p) /\ o.spans = Legacy(p)
               /\ o.text = [k |-> "text", t |-> LegacyText(p, V)]
               /\ ((\A k \in 2..Len(p.sels) : Len(p.sels[k].d) = 1) /\ miss = {} => o.text = x.tier)
               /\ o.warns = (miss # {})
               /\ \A j \in 1..Len(o.al) : o.al[j].want = o.al[j].got
      THEN {"E04"} ELSE {})
     \cup
     (IF x.res /\ (x.tier # r \/ x.igt # r) THEN {"E01"} ELSE {})
     \cup (IF x.rew /\
             (~(/\ x.ok
                /\ SamePieces(p, x.x) /\ SamePieces(p, x.c) /\ SamePieces(p, x.cx)
                /\ \A k \in 1..Len(q.sels) : Len(q.sels[k].spans) <= 1
                /\ CompressP(c) = c
                /\ x.xx = x.x /\ x.cc = x.cx
                /\ Flat(x.sel) = x.e /\ x.seln = SelListNoDelim(p) /\ x.sel = SelList(p)
                /\ Flat(x.sp) = x.x /\ x.sp = SelList(xp) /\ x.spn = SelListNoDelim(xp)
                /\ x.ids = IdsOf(p))
              \/ (x.res /\ (x.rx # r \/ x.rc # r)))
           THEN {"E02"} ELSE {})

Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1]
               b == Wrong(x) IN
           IF b = {} THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> b,
                   exp |-> [res |-> Exp(x), x |-> Text(ExpandP(Parse(x.e))), c |-> Text(CompressP(Parse(x.e)))]]))
=============================================================================
