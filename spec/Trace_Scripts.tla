--------------------------- MODULE Trace_Scripts ---------------------------
(* cases, by t:                                                              *)
(* part  [docs, p, def, exists, ok, status, out: seq of [name, igts], same]  *)
(* sort  [doc, o, ok, ch, same]                                              *)
(* valid [files: seq of [doc, wild, loads], level, ok, status,               *)
(*        rep: seq of [recs, heads], same]                                   *)
(* query [docs, heads, agenda, ok, lines]                                    *)
EXTENDS Scripts, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
Init == tid \in 1..Len(Traces) /\ l = 0

Part(x) ==
  LET ks == [f \in 1..Len(x.docs) |-> KeysOf(x.docs[f], x.p)]
      def == \A f \in 1..Len(x.docs) : \A j \in 1..Len(Igts(x.docs[f])) : KeyDefined(x.docs[f], Igts(x.docs[f])[j], x.p)
      exp == IF x.exists THEN {} ELSE {[name |-> n, igts |-> Content(ks, x.def, n)] : n \in Names(ks, x.def)}
  IN IF ~def THEN {}
     ELSE (IF x.ok # "" THEN {x.ok} ELSE {}) \cup (IF x.exists /\ x.status = 0 THEN {"not refused"} ELSE {}) \cup (IF ~x.exists /\ x.status # 0 THEN {"failed"} ELSE {})
          \cup (IF ToSet(x.out) # exp \/ Len(x.out) # Cardinality(exp) THEN {"files"} ELSE {}) \cup (IF x.same # "" THEN {x.same} ELSE {})
SortCase(x) ==
  IF ~SortDefined(x.doc, x.o) THEN {}
  ELSE (IF x.ok # "" THEN {x.ok} ELSE {}) \cup (IF x.ok = "" /\ x.ch # Sorted(x.doc, x.o) THEN {"order"} ELSE {}) \cup (IF x.same # "" THEN {x.same} ELSE {})
Ids(fs, k) == {fs[j].doc[1].id : j \in {i \in 1..k - 1 : fs[i].loads}}
Valid(x) ==
  LET at(k) == IF x.files[k].loads THEN TLCEval({f \in Findings(x.files[k].doc, Ids(x.files, k), x.files[k].wild) : f.lv >= x.level}) ELSE {}
      fs == TLCEval([k \in 1..Len(x.files) |-> at(k)])
      sure == \E k \in 1..Len(fs) : ~x.files[k].loads \/ \E f \in fs[k] : f.sure
      may == sure \/ \E k \in 1..Len(fs) : fs[k] # {}
  IN (IF x.ok # "" THEN {x.ok} ELSE {})
     \cup (IF x.ok = "" /\ ((x.status = 0 /\ sure) \/ (x.status # 0 /\ ~may)) THEN {"status"} ELSE {})
     \cup (IF x.ok = "" /\ \E k \in 1..Len(fs) : x.files[k].loads /\ ~ReportOK(x.files[k].doc, fs[k], x.rep[k].recs, x.rep[k].heads) THEN {"report"} ELSE {})
     \cup (IF x.same # "" THEN {x.same} ELSE {})
Query(x) ==
  IF \E f \in 1..Len(x.docs), k \in 1..Len(x.agenda) : ~AskDefined(x.docs[f], x.agenda[k]) THEN {}
  ELSE (IF x.ok # "" THEN {x.ok} ELSE {})
       \cup (IF x.ok = "" /\ x.lines # Cat([f \in 1..Len(x.docs) |-> FileLines(x.docs[f], x.agenda, x.heads[f])]) THEN {"lines"} ELSE {})
Wrong(x) == CASE x.t = "part" -> Part(x) [] x.t = "sort" -> SortCase(x) [] x.t = "valid" -> Valid(x) [] x.t = "query" -> Query(x)
Expected(x) ==
  CASE x.t = "part" -> [e |-> LET ks == [f \in 1..Len(x.docs) |-> KeysOf(x.docs[f], x.p)] IN {[name |-> n, igts |-> Content(ks, x.def, n)] : n \in Names(ks, x.def)}]
    [] x.t = "sort" -> [e |-> Sorted(x.doc, x.o)]
    [] x.t = "valid" -> [e |-> [k \in 1..Len(x.files) |-> {f \in Findings(x.files[k].doc, Ids(x.files, k), x.files[k].wild) : f.lv >= x.level}]]
    [] x.t = "query" -> [e |-> Cat([f \in 1..Len(x.docs) |-> FileLines(x.docs[f], x.agenda, x.heads[f])])]
Next == /\ l < Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
        /\ LET x == Traces[tid].ev[l + 1]
               b == Wrong(x) IN
           IF b = {} THEN TRUE
           ELSE PrintT("@@MISMATCH " \o ToJson([tid |-> tid, l |-> l + 1, bad |-> b, exp |-> Expected(x)]))
=============================================================================
