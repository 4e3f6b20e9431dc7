--------------------------- MODULE Trace_IgtIndex ---------------------------
(* Recorded sessions: [doc, ev]; an event is [e, obs], an edit of the        *)
(* document and, if obs # <<>>, what a refreshed IGT answered after it.      *)
(* A mention list is recorded as the text of the attribute, [k, cps], and    *)
(* read here with the grammar of Refs.                                       *)
EXTENDS IgtIndex, TLC, Json, IOUtils
R == INSTANCE Refs
VARIABLES tid, l, doc, stop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

Init == /\ tid \in 1..Len(Traces) /\ l = 0 /\ stop = FALSE /\ doc = Traces[tid].doc

M(v) == R!Mentions(v)
(* the document with mention lists instead of texts *)
At(at) == [k \in 1..Len(at) |-> <<at[k][1], M(at[k][2])>>]
Read(d) == [ti \in 1..Len(d) |->
  [id |-> d[ti].id, at |-> At(d[ti].at),
   items |-> [ii \in 1..Len(d[ti].items) |-> [id |-> d[ti].items[ii].id, at |-> At(d[ti].items[ii].at)]]]]

(* obs: seq of [id, item, any, known, q: seq of [a, ents, cents, ers, cers]], *)
(* deref: seq of [ti, ii, a, all, first]; lone: references of objects outside *)
(* an IGT or without id are refused                                           *)
Bad05(d, o) == o.item # GetItem(d, o.id) \/ o.any # GetAny(d, o.id) \/ o.cls # "ok"
Norm(d, s) == IF ItemIdsUnique(d) THEN s ELSE Dedup(s, <<>>)
Bad06(d, o) ==
  IF ~Known(d, o.id) THEN ~o.raised
  ELSE \/ o.raised
       \/ \E k \in 1..Len(o.q) :
            LET q == o.q[k] en == Referents(d, o.id, q.a) er == Referrers(d, o.id, q.a) IN
            \/ q.ents # en \/ Norm(d, q.ers) # er
            \/ q.std /\ (q.cents # en \/ Norm(d, q.cers) # er \/ q.dents # en \/ Norm(d, q.ders) # er)
            \/ q.objents # en \/ Norm(d, q.objers) # er
BadDeref(d, x) ==
  LET m == Attr(Obj(d, <<x.ti, x.ii>>), x.a) IN
  x.all # [k \in 1..Len(m) |-> GetAny(d, m[k])] \/ (m # <<>> /\ x.first # GetAny(d, m[1]))
Wrong(d, obs) ==
  (IF \E k \in 1..Len(obs.o) : Bad05(d, obs.o[k]) THEN {"C05"} ELSE {})
  \cup (IF obs.none # <<>> THEN {"C05"} ELSE {})
  \cup (IF \E k \in 1..Len(obs.o) : Bad06(d, obs.o[k]) THEN {"C06"} ELSE {})
  \cup (IF obs.lone THEN {} ELSE {"C06"})
  \cup (IF \E k \in 1..Len(obs.deref) : BadDeref(d, obs.deref[k]) THEN {"C06"} ELSE {})
Culprit(d, obs) ==
  LET c == {k \in 1..Len(obs.o) : Bad05(d, obs.o[k]) \/ Bad06(d, obs.o[k])} IN
  IF c = {} THEN [id |-> <<>>, exp |-> <<>>]
  ELSE LET o == obs.o[CHOOSE k \in c : TRUE] IN
       [id |-> o.id, item |-> GetItem(d, o.id), any |-> GetAny(d, o.id),
        q |-> IF Known(d, o.id) THEN [k \in 1..Len(o.q) |-> [ents |-> Referents(d, o.id, o.q[k].a), ers |-> Referrers(d, o.id, o.q[k].a)]] ELSE <<>>]

Next ==
  /\ ~stop /\ l < Len(Traces[tid].ev)
  /\ LET x == Traces[tid].ev[l + 1]
         d == Edit(doc, x.e)
         b == IF x.obs = <<>> THEN {} ELSE Wrong(TLCEval(Read(d)), x.obs[1])
     IN /\ l' = l + 1 /\ UNCHANGED tid
        /\ IF b = {} THEN doc' = d /\ UNCHANGED stop
           ELSE /\ PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> b, exp |-> Culprit(Read(d), x.obs[1])]))
                /\ stop' = TRUE /\ UNCHANGED doc
=============================================================================
