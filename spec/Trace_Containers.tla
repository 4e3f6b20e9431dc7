-------------------------- MODULE Trace_Containers --------------------------
(* Checks recorded edit sessions (file TRACE_FILE, one JSON trace per line)  *)
(* against Containers.                                                       *)
(*   trace: [init |-> [thing, mem, own], ids, ev |-> seq of [e, ok, obs]]    *)
(*   obs:   [con |-> seq by thing of views, own |-> seq by thing of owners]  *)
EXTENDS Containers, TLC, Json, IOUtils

VARIABLES tid, l, s, prev, stop
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

Init == /\ tid \in 1..Len(Traces)
        /\ l = 0 /\ stop = FALSE
        /\ s = Traces[tid].init
        /\ prev = Traces[tid].own0

ViewBad(t, c, w, ids) ==
  LET v == View(t, c, ids) IN
  (IF w.it # v.it \/ w.prop # v.it \/ w.len # v.len \/ w.fwd # v.it \/ w.neg # v.neg
      \/ w.num # v.it \/ w.sl # v.sl \/ ~w.oob THEN {"order"} ELSE {})
  \cup (IF w.get # v.look \/ w.item # v.look THEN {"lookup"} ELSE {})

Bad(t, x, ids, ok) ==
  LET cons == {c \in 1..Len(t.thing) : IsContainer(t.thing[c].kind)}
      vb == UNION {ViewBad(t, c, x.obs.con[c], ids) : c \in cons}
      ob == \E o \in 1..Len(t.thing) : OwnerFixed(t, o) /\ x.obs.own[o] # t.own[o]
      cb == x.obs.chain # "ok"
      bulk == x.e.op \in {"extend", "assign", "addlist", "reassign", "reextend", "iadd", "iaddp"}
      keep == \E o \in 1..Len(t.thing) :
                 /\ t.own[o] = s.own[o]
                 /\ ~bulk \/ (o \notin Contained(s, x.e.c))
                 /\ x.obs.own[o] # prev[o]
  IN (IF x.ok # ok THEN {"C02"} ELSE {})
     \cup (IF vb # {} THEN {"C01"} ELSE {})
     \cup (IF ~ok /\ vb # {} THEN {"C02"} ELSE {})
     \cup (IF ob \/ cb THEN {"C03"} ELSE {})
     \cup (IF ~ok /\ keep THEN {"C02"} ELSE {})

Next ==
  /\ ~stop /\ l < Len(Traces[tid].ev)
  /\ LET x == Traces[tid].ev[l + 1]
         r == IF x.e.op = "start" THEN Ok(s) ELSE Step(s, x.e)
         b == Bad(r.s, x, Traces[tid].ids, r.ok)
     IN IF b = {}
        THEN l' = l + 1 /\ s' = r.s /\ prev' = x.obs.own /\ UNCHANGED <<tid, stop>>
        ELSE /\ PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> b,
                 exp |-> [ok |-> r.ok, mem |-> r.s.mem, own |-> r.s.own]]))
             /\ l' = l + 1 /\ stop' = TRUE /\ UNCHANGED <<tid, s, prev>>
=============================================================================
